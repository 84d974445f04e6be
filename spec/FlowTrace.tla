------------------------------ MODULE FlowTrace ------------------------------
(* Validation of recorded executions of a flow whose awaited items finish on   *)
(* several threads at once (same program form as Flow; all steps are "run" but *)
(* the last, which delivers the result).                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES t, i, next, fin, out
vars == <<t, i, next, fin, out>>
Traces == JsonDeserialize("traces.json")
C == Traces[t]
E == C.ev[i]
Init == t \in 1..Len(Traces) /\ i = 1 /\ next = 1 /\ fin = {} /\ out = FALSE
Adv == i' = i + 1 /\ UNCHANGED t
\* an item counts as finished from the moment its finishing began
FinBegin == E.k = "fin" /\ fin' = fin \cup {E.i} /\ Adv /\ UNCHANGED <<next, out>>
Step == /\ E.k = "step" /\ E.i = next /\ next <= Len(C.steps) /\ ~out
        /\ next > 1 => \A k \in 1..Len(C.steps[next - 1]) : C.steps[next - 1][k] \in fin
        /\ next' = next + 1 /\ Adv /\ UNCHANGED <<fin, out>>
Success == E.k = "success" /\ ~out /\ next = Len(C.steps) + 1 /\ out' = TRUE /\ Adv /\ UNCHANGED <<fin, next>>
Next == i <= Len(C.ev) /\ (FinBegin \/ Step \/ Success)
Spec == Init /\ [][Next]_vars
\* every item has finished by the end, so the flow has run to its result
Accept == (i = Len(C.ev) + 1 /\ out) => PrintT("@" \o ToString(t))
=============================================================================
