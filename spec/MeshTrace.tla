------------------------------- MODULE MeshTrace -------------------------------
(* Recorded from a mesh which is called while modules are loaded: load/loaded v when  *)
(* loading the exporter of x.f begins and is over ("none": a version without x.f);    *)
(* call c and answer c v.  A call reaches an instance that was the newest one at some  *)
(* time during the call; y.f is exported once relay has been recorded.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, s
vars == <<t, i, s>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = [cur |-> {"none"}, relay |-> FALSE, open |-> {}]
Log == Traces[t].log
E == Log[i].e
C == Log[i].c
V == Log[i].v
\* what a call may come by while the state is q
Widen(q) == [q EXCEPT !.open = {[c EXCEPT !.may = @ \cup q.cur] : c \in @}]
Ok ==
  \/ E = "load" /\ s' = Widen([s EXCEPT !.cur = @ \cup {V}])
  \/ E = "loaded" /\ s' = [s EXCEPT !.cur = {V}]
  \/ E = "relay" /\ s' = [s EXCEPT !.relay = TRUE]
  \/ E = "call" /\ s' = [s EXCEPT !.open = @ \cup {[c |-> C, may |-> s.cur \cup (IF V = "y.f" /\ ~s.relay THEN {"none"} ELSE {})]}]
  \/ E = "answer" /\ \E c \in s.open : /\ c.c = C
                                        /\ (IF V = "" THEN "none" ELSE V) \in c.may
                                        /\ s' = [s EXCEPT !.open = @ \ {c}]
Next == /\ i <= Len(Log) /\ Ok /\ i' = i + 1 /\ t' = t
        /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Spec == Init /\ [][Next]_vars
=============================================================================
