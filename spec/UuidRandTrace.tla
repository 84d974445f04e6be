---------------------------- MODULE UuidRandTrace ----------------------------
(* Recorded draws: where in the source the bits of a UUID come from (pos, -1 if *)
(* nowhere), whether version and variant are set, whether the source failed     *)
(* while it was drawn.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
VARIABLES t, i, used
Traces == JsonDeserialize("traces.json")
R == INSTANCE UuidRand WITH D <- 0, Counts <- {}, Fails <- {}, pooled <- FALSE, h <- <<>>
T == Traces[t]
E == T[i]
Init == t \in 1..Len(Traces) /\ i = 1 /\ used = {}
Good == /\ E.ok /\ ~E.failed /\ E.pos >= 0 /\ E.v4 /\ R!Fresh(used, E.pos) /\ used' = used \cup {E.pos}
Bad == ~E.ok /\ E.failed /\ E.nil /\ UNCHANGED used
Next == i <= Len(T) /\ (Good \/ Bad) /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, used>>
Accept == i = Len(T) + 1 => PrintT("@" \o ToString(t))
=============================================================================
