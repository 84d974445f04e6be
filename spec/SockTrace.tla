------------------------------ MODULE SockTrace ------------------------------
(* Recorded from a connection with several senders: send/sent (flushed, when the   *)
(* call also flushes) around each call, wire when a whole frame has got onto the   *)
(* wire.  Frames get there complete and once, after they were sent, in the order   *)
(* of their sender, and before a flush after them returns.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, sent, wired
vars == <<t, i, sent, wired>>
Log == Traces[t].log
E == Log[i].e
X == <<Log[i].s, Log[i].k>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ sent = {} /\ wired = {}
Ok ==
  \/ E = "send" /\ X \notin sent /\ sent' = sent \cup {X} /\ wired' = wired
  \/ E = "wire" /\ X \in sent /\ X \notin wired
     \* every frame of the same sender before it is on the wire
     /\ (\A k \in 1..(X[2] - 1) : <<X[1], k>> \in wired)
     /\ wired' = wired \cup {X} /\ sent' = sent
  \/ E = "sent" /\ X \in sent /\ UNCHANGED <<sent, wired>>
  \/ E = "flushed" /\ X \in wired /\ UNCHANGED <<sent, wired>>
  \/ E = "rest" /\ wired = sent /\ UNCHANGED <<sent, wired>>
Next == /\ i <= Len(Log) /\ Ok /\ i' = i + 1 /\ t' = t
        /\ (i = Len(Log) => PrintT("@" \o ToString(t)))
Spec == Init /\ [][Next]_vars
=============================================================================
