----------------------------- MODULE EngineTrace -----------------------------
(* What was seen of one direction of a stream while everything ran at once.      *)
(* "send": the endpoint sends values of a publisher of its own; "recv": it        *)
(* receives values for a subscriber of its own.  arr...: frames about to arrive,  *)
(* o...: frames that left; entries of one side are in the order they happened.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bags
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, s
vars == <<t, i, s>>
New == [dem |-> 0, got |-> 0, vals |-> <<>>, n |-> 0, end |-> "", endv |-> 0, fin |-> FALSE, stop |-> FALSE, done |-> FALSE, lim |-> 0,
        pc |-> 0, bag |-> EmptyBag, first |-> FALSE, cx |-> 0, drop |-> FALSE, quit |-> FALSE, qd |-> FALSE, endAt |-> FALSE, may |-> FALSE]
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = New
Log == Traces[t].log
E == Log[i].e
X == Log[i].v
To(r) == s' = r
Send ==
  \/ E = "arrdem" /\ To([s EXCEPT !.dem = @ + X])
  \/ E = "preq" /\ s.got + X <= s.dem /\ To([s EXCEPT !.got = @ + X])
  \/ E = "pub" /\ To([s EXCEPT !.vals = Append(@, X)])
  \/ E \in {"hcomplete", "herror"} /\ To([s EXCEPT !.end = E, !.endv = X, !.endAt = s.done])
  \* values leave in order, as far as asked for, and none that was published after the cancel had been handled
  \/ E = "onext" /\ ~s.fin /\ s.n < Len(s.vals) /\ X = s.vals[s.n + 1] /\ s.n < s.dem /\ (s.done => s.n < s.lim)
     /\ To([s EXCEPT !.n = @ + 1])
  \/ E = "ocomplete" /\ ~s.fin /\ s.end = "hcomplete" /\ ~s.endAt /\ (s.stop \/ s.may \/ s.n = Len(s.vals)) /\ To([s EXCEPT !.fin = TRUE])
  \/ E = "oerror" /\ ~s.fin /\ s.end = "herror" /\ X = s.endv /\ ~s.endAt /\ (s.stop \/ s.may \/ s.n = Len(s.vals)) /\ To([s EXCEPT !.fin = TRUE])
  \/ E = "stop" /\ To([s EXCEPT !.stop = TRUE])
  \/ E = "stopped" /\ To([s EXCEPT !.done = TRUE, !.lim = IF s.done THEN @ ELSE Len(s.vals)])
  \* a cancel that may or may not have meant something
  \/ E = "may" /\ To([s EXCEPT !.may = TRUE])
  \/ E = "pcancel" /\ (s.stop \/ s.may) /\ s.pc = 0 /\ To([s EXCEPT !.pc = 1])
  \/ E = "rest" /\ UNCHANGED s
     /\ (~s.may /\ ~s.stop /\ s.end = "" => s.got = s.dem)
     /\ (~s.may /\ ~s.stop /\ s.end # "" => s.fin)
     /\ (~s.may /\ ~s.stop => s.n = Len(s.vals) /\ s.pc = 0)
     /\ (~s.may /\ s.stop /\ s.end = "" /\ Log # <<>> => s.pc = 1 \/ \A j \in 1..Len(Log) : Log[j].e # "preq")
Recv ==
  \/ E = "ask" /\ To([s EXCEPT !.bag = @ (+) SetToBag({X})])
  \* every demand leaves once, none after the cancel
  \/ E = "dem" /\ BagIn(X, s.bag) /\ s.cx = 0 /\ To([s EXCEPT !.bag = @ (-) SetToBag({X}), !.first = TRUE])
  \/ E = "arrnext" /\ To([s EXCEPT !.vals = Append(@, X)])
  \* the first end counts
  \/ E \in {"arrcomplete", "arrerror"} /\ To(IF s.end = "" THEN [s EXCEPT !.end = E, !.endv = X, !.lim = Len(s.vals), !.endAt = s.qd] ELSE s)
  \/ E = "see" /\ ~s.fin /\ s.n < Len(s.vals) /\ X = s.vals[s.n + 1] /\ (s.end # "" => s.n < s.lim) /\ (s.qd => s.n < s.got)
     /\ To([s EXCEPT !.n = @ + 1])
  \/ E = "seecomplete" /\ ~s.fin /\ s.end = "arrcomplete" /\ s.n = s.lim /\ To([s EXCEPT !.fin = TRUE])
  \/ E = "seeerror" /\ ~s.fin /\ s.end = "arrerror" /\ X = s.endv /\ s.n = s.lim /\ To([s EXCEPT !.fin = TRUE])
  \/ E = "quit" /\ To([s EXCEPT !.quit = TRUE])
  \* got: how much had arrived when the subscriber had stopped
  \/ E = "quitted" /\ To([s EXCEPT !.qd = TRUE, !.got = Len(s.vals)])
  \/ E = "ocancel" /\ s.quit /\ s.cx = 0 /\ To([s EXCEPT !.cx = 1])
  \/ E = "drop" /\ To([s EXCEPT !.drop = TRUE])
  \/ E = "rest" /\ UNCHANGED s
     /\ (~s.quit /\ ~s.drop /\ s.end = "" => s.bag = EmptyBag /\ s.n = Len(s.vals))
     /\ (~s.quit /\ ~s.drop /\ s.end # "" => s.fin \/ \A j \in 1..Len(Log) : Log[j].e # "ask")
     /\ (s.quit /\ ~s.drop /\ s.first /\ (s.end = "" \/ s.endAt) => s.cx = 1)
Next == /\ i <= Len(Log)
        /\ IF Traces[t].k = "send" THEN Send ELSE Recv
        /\ i' = i + 1 /\ t' = t
        /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Spec == Init /\ [][Next]_vars
=============================================================================
