--------------------------- MODULE LiveInstances ----------------------------
(* The table of live instances (package invoke): a handle names one instance   *)
(* from Put until Remove.  The k-th Put gives handle k here; the harness maps   *)
(* handle numbers of the code to these.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPuts, D
VARIABLES reg, puts, h
vars == <<reg, puts, h>>

Find(r, k) == IF k \in DOMAIN r THEN r[k] ELSE 0
Put(r, k, obj) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN obj ELSE r[x]]
Del(r, k) == [x \in DOMAIN r \ {k} |-> r[x]]

Init == reg = [x \in {} |-> 0] /\ puts = 0 /\ h = <<>>
Obs(r, n, res) == [get |-> [k \in 1..n |-> Find(r, k)], res |-> res]
DoPut == /\ puts < MaxPuts
         /\ \E obj \in {puts + 1, 1} :      \* the same instance may be put twice
              /\ reg' = Put(reg, puts + 1, obj) /\ puts' = puts + 1
              /\ h' = Append(h, [a |-> "put", obj |-> obj, o |-> Obs(reg', puts', 0)])
DoRemove == \E k \in 1..puts :
              /\ reg' = Del(reg, k) /\ UNCHANGED puts
              /\ h' = Append(h, [a |-> "remove", k |-> k, o |-> Obs(reg', puts, Find(reg, k))])
\* a number that was never handed out
DoUnknown == \E u \in {"zero", "max", "near"}, op \in {"get", "remove"} :
              /\ UNCHANGED <<reg, puts>>
              /\ h' = Append(h, [a |-> "unknown", u |-> u, op |-> op, o |-> Obs(reg, puts, 0)])
Next == Len(h) < D /\ (DoPut \/ DoRemove \/ DoUnknown)
Spec == Init /\ [][Next]_vars
LiveAreFound == \A k \in DOMAIN reg : Find(reg, k) # 0
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
=============================================================================
