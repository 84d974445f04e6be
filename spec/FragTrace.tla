------------------------------ MODULE FragTrace ------------------------------
(* Recorded splittings: each trace is the case followed by its fragments.        *)
EXTENDS Frag
Traces == JsonDeserialize("traces.json")
VARIABLES i
TInit == i \in 1..Len(Traces) /\ c = Traces[i][1]
TNext == UNCHANGED <<i, c>>
TSpec == TInit /\ [][TNext]_<<i, c>>
Check == Valid(c, Tail(Traces[i])) => PrintT("@" \o ToString(i))
=============================================================================
