---------------------------- MODULE HostCloseTrace ----------------------------
(* Recorded from the real host while everything happens at once: arrive/arrived r    *)
(* around the hand-over of a request, end r before its answer or cancel (or with the *)
(* arrival of one that is rejected), close/closed x around a call of Close.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, s
vars == <<t, i, s>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = [in |-> {}, over |-> {}, wait |-> {}, before |-> {}, done |-> {}, closed |-> FALSE]
Log == Traces[t].log
E == Log[i].e
X == Log[i].v
To(r) == s' = r
Ok ==
  \/ E = "arrive" /\ To(s)
  \* a request handed over before the first Close is called is under way from then on, one handed over later may be refused
  \/ E = "arrived" /\ To(IF s.wait = {} THEN [s EXCEPT !.in = @ \cup {X}] ELSE s)
  \/ E = "end" /\ To([s EXCEPT !.over = @ \cup {X}])
  \/ E = "ended" /\ To(s)
  \/ E = "close" /\ To([s EXCEPT !.wait = @ \cup {X}])
  \/ E = "closed" /\ X \in s.wait /\ X \notin s.done /\ s.in \subseteq s.over /\ To([s EXCEPT !.done = @ \cup {X}])
  \* at rest every request has ended, so every Close has returned
  \/ E = "rest" /\ s.done = s.wait /\ To(s)
Next == /\ i <= Len(Log) /\ Ok /\ i' = i + 1 /\ t' = t
        /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Spec == Init /\ [][Next]_vars
=============================================================================
