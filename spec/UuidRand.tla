------------------------------ MODULE UuidRand ------------------------------
(* Drawing random UUIDs, with and without the pool, from a source that can      *)
(* fail: which programs there are, and (Draw) what is allowed to come out.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS D, Counts, Fails
VARIABLES pooled, used, h
vars == <<pooled, used, h>>
\* a draw takes 16 bytes of the source that no earlier draw has taken, or fails because the source failed
Fresh(u, p) == \A q \in u : p >= q + 16 \/ q >= p + 16
Init == pooled = FALSE /\ used = {} /\ h = <<>>
Add(s) == h' = Append(h, s)
Next == /\ Len(h) < D
        /\ \/ Add([a |-> "enable", n |-> 0]) /\ pooled' = TRUE /\ UNCHANGED used
           \/ Add([a |-> "disable", n |-> 0]) /\ pooled' = FALSE /\ UNCHANGED used
           \/ \E n \in Counts : Add([a |-> "draw", n |-> n]) /\ UNCHANGED <<pooled, used>>
           \* the source fails once, n bytes from now
           \/ \E n \in Fails : Add([a |-> "fail", n |-> n]) /\ UNCHANGED <<pooled, used>>
           \* the source hands out at most n bytes at a time from now on
           \/ \E n \in {1, 7} : Add([a |-> "chunk", n |-> n]) /\ UNCHANGED <<pooled, used>>
Spec == Init /\ [][Next]_vars
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
=============================================================================
