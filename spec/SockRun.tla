------------------------------- MODULE SockRun -------------------------------
(* One run of a connection.  A reader takes frames off the connection (the server  *)
(* handles the first, a setup, before anything else), hands them over, and a        *)
(* dispatcher handles them one by one in that order.  The run ends when the stream  *)
(* ends, a frame is invalid, handling fails, the connection is closed or the        *)
(* context is cancelled - after everything handed over was handled - and the        *)
(* connection is then closed, once.  A recorded run (inputs, and what was seen      *)
(* each time everything had come to rest) must be one of this machine's.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, s
vars == <<t, i, s>>
Log == Traces[t].log
E == Log[i]
\* pend: arrived and not read; q: handed over; done: handled; busy: the frame a handler is busy with
Init == /\ t \in 1..Len(Traces) /\ i = 2
        /\ s = [ph |-> IF Traces[t].log[1].r = "server" THEN "first" ELSE "run", pend |-> <<>>, q |-> <<>>, done |-> <<>>, busy |-> 0, n |-> 0,
                ready |-> Traces[t].log[1].r = "client", why |-> {}, ctx |-> FALSE, local |-> FALSE, failed |-> FALSE, free |-> FALSE, res |-> ""]
Setup == {"setup", "setupfail", "setupblock"}
Frame == Setup \cup {"req", "fail", "block"}
Stay == i' = i /\ t' = t
\* ---------------------------------------------------------------- the machine
\* what becomes of the state r when a frame of kind k has been handled
Blocks(k) == k \in {"block", "setupblock"} /\ ~s.free
Fails(k) == k \in {"fail", "setupfail"}
ReadFirst ==
  /\ s.ph = "first" /\ s.busy = 0 /\ s.pend # <<>>
  /\ LET x == Head(s.pend)
         r == [s EXCEPT !.pend = Tail(@)]
     IN s' = IF x.k \in Setup
             THEN IF Blocks(x.k) THEN [r EXCEPT !.busy = x.id, !.done = Append(@, x.id)]
                  ELSE IF Fails(x.k) THEN [r EXCEPT !.done = Append(@, x.id), !.ph = "ending", !.why = @ \cup {"handler"}]
                  ELSE [r EXCEPT !.done = Append(@, x.id), !.ph = "run", !.ready = TRUE]
             ELSE [r EXCEPT !.ph = "ending", !.why = @ \cup {IF x.k = "eof" THEN "eof1" ELSE "bad"}]
  /\ Stay
Read ==
  /\ s.ph = "run" /\ s.pend # <<>>
  /\ LET x == Head(s.pend)
         r == [s EXCEPT !.pend = Tail(@)]
     IN s' = IF x.k \in Frame THEN [r EXCEPT !.q = Append(@, x)]
             ELSE [r EXCEPT !.ph = "ending", !.why = @ \cup {IF x.k = "eof" THEN "eof" ELSE "bad"}]
  /\ Stay
Handle ==
  /\ s.q # <<>> /\ s.busy = 0
  /\ LET x == Head(s.q)
         r == [s EXCEPT !.q = Tail(@), !.done = Append(@, x.id)]
     IN s' = IF Blocks(x.k) THEN [r EXCEPT !.busy = x.id]
             ELSE IF Fails(x.k) THEN [r EXCEPT !.failed = TRUE, !.why = @ \cup {"handler"}]
             ELSE r
  /\ Stay
\* the reader finds the connection closed or the run over
Stop == s.ctx \/ s.local \/ s.failed
Notice ==
  /\ Stop /\ (s.ph = "run" \/ (s.ph = "first" /\ s.busy = 0))
  /\ s' = [s EXCEPT !.ph = "ending", !.why = @ \cup (IF s.local THEN {IF s.ph = "first" THEN "eof1" ELSE "eof"} ELSE {})]
  /\ Stay
Results(c) == CASE c = "eof" -> {"nil"} [] c = "eof1" -> {"nil", "err"} [] c = "bad" -> {"err"} [] c = "handler" -> {"handler"} [] OTHER -> {"ctx"}
End ==
  /\ s.ph = "ending" /\ s.q = <<>> /\ s.busy = 0
  /\ \E c \in s.why : \E x \in Results(c) : s' = [s EXCEPT !.ph = "over", !.res = x]
  /\ Stay
Rest == /\ ~(s.q # <<>> /\ s.busy = 0)
        /\ ~(s.ph = "first" /\ s.busy = 0 /\ (s.pend # <<>> \/ Stop))
        /\ ~(s.ph = "run" /\ (s.pend # <<>> \/ Stop))
        /\ ~(s.ph = "ending" /\ s.q = <<>> /\ s.busy = 0)
\* ------------------------------------------------------------------ the record
To(r) == s' = r /\ i' = i + 1 /\ t' = t /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Items(e) == [j \in 1..Len(e.items) |-> [k |-> e.items[j], id |-> s.n + j]] \o (IF e.end = "" THEN <<>> ELSE <<[k |-> e.end, id |-> 0]>>)
Input ==
  /\ i <= Len(Log)
  /\ CASE E.a = "put" -> To([s EXCEPT !.n = @ + Len(E.items), !.pend = IF s.ph \in {"ending", "over"} \/ Stop THEN @ ELSE @ \o Items(E)])
       \* the handler goes on; where there is none, nothing happens
       [] E.a = "release" -> To(IF s.busy = 0 THEN s
                                ELSE IF E.w = "ok" THEN [s EXCEPT !.busy = 0, !.ph = IF @ = "first" THEN "run" ELSE @, !.ready = @ \/ s.ph = "first"]
                                ELSE IF s.ph = "first" THEN [s EXCEPT !.busy = 0, !.ph = "ending", !.why = @ \cup {"handler"}]
                                ELSE [s EXCEPT !.busy = 0, !.failed = TRUE, !.why = @ \cup {"handler"}])
       [] E.a = "close" -> To([s EXCEPT !.local = TRUE])
       [] E.a = "ctx" -> To([s EXCEPT !.ctx = TRUE, !.why = IF s.ph = "over" THEN @ ELSE @ \cup {"ctx"}])
       [] E.a = "finish" -> To([s EXCEPT !.local = TRUE, !.free = TRUE, !.busy = 0, !.ph = IF @ = "first" /\ s.busy # 0 THEN "run" ELSE @, !.ready = @ \/ (s.ph = "first" /\ s.busy # 0)])
       [] E.a = "rest" -> /\ Rest
                          /\ E.done = s.done /\ E.busy = (s.busy # 0)
                          /\ E.res = (IF s.ph = "over" THEN s.res ELSE "running")
                          /\ (IF s.ph = "over" \/ s.local THEN E.closes = 1 ELSE IF s.ph = "ending" \/ Stop THEN E.closes \in {0, 1} ELSE E.closes = 0)
                          /\ (IF s.ready \/ s.ph = "over" THEN E.waited ELSE IF Stop \/ s.ph = "ending" THEN TRUE ELSE ~E.waited)
                          /\ To(s)
Next == ReadFirst \/ Read \/ Handle \/ Notice \/ End \/ Input
Spec == Init /\ [][Next]_vars
\* nothing is handled before a setup, twice or out of order, whatever the recorded run
InOrder == \A j \in 2..Len(s.done) : s.done[j - 1] < s.done[j]
=============================================================================
