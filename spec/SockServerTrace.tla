--------------------------- MODULE SockServerTrace ---------------------------
(* Recorded from a server while connections come, are set up, fail, end and the    *)
(* server is closed, all at once: setup x before a setup is sent on connection x,   *)
(* told x when the acceptor hears of it, shut x when it is closed, end when         *)
(* listening has returned; rest when nothing moves any more.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, s
vars == <<t, i, s>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = [set |-> {}, told |-> {}, shut |-> {}, all |-> {}, over |-> FALSE]
Log == Traces[t].log
E == Log[i].e
X == Log[i].x
To(r) == s' = r
Ok ==
  \/ E = "conn" /\ To([s EXCEPT !.all = @ \cup {X}])
  \/ E = "setup" /\ To([s EXCEPT !.set = @ \cup {X}])
  \/ E = "told" /\ X \in s.set /\ X \notin s.told /\ To([s EXCEPT !.told = @ \cup {X}])
  \/ E = "shut" /\ X \in s.all /\ X \notin s.shut /\ To([s EXCEPT !.shut = @ \cup {X}])
  \/ E = "end" /\ ~s.over /\ To([s EXCEPT !.over = TRUE])
  \/ E = "rest" /\ s.over /\ s.shut = s.all /\ To(s)
Next == /\ i <= Len(Log) /\ Ok /\ i' = i + 1 /\ t' = t
        /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Spec == Init /\ [][Next]_vars
=============================================================================
