------------------------------ MODULE StreamId -------------------------------
(* Handing out stream numbers (package internal/socket).  Top is the highest   *)
(* number (2^31-1 in the code; smaller here to check the design exhaustively). *)
(* The operators are also used by StreamIdTrace with the real Top.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Top, Side, Procs, K
VARIABLES last, loops, got
vars == <<last, loops, got>>

First(side) == IF side = "client" THEN 1 ELSE 2
Last(side, top) == IF side = "client" THEN top ELSE top - 1     \* Top is odd
Succ(side, top, n) == IF n = 0 \/ n = Last(side, top) THEN First(side) ELSE n + 2
LoopLen(side, top) == IF side = "client" THEN (top + 1) \div 2 ELSE (top - 1) \div 2

Init == last = 0 /\ loops = 0 /\ got = [p \in Procs |-> <<>>]
Hand(p) == /\ Len(got[p]) < K
           /\ last' = Succ(Side, Top, last)
           /\ loops' = IF last' = First(Side) /\ last # 0 THEN loops + 1 ELSE loops
           /\ got' = [got EXCEPT ![p] = Append(@, <<last', loops' = 0, loops'>>)]
Next == \E p \in Procs : Hand(p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
All == {<<p, k>> : p \in Procs, k \in 1..K}
Handed == {x \in All : x[2] <= Len(got[x[1]])}
G(x) == got[x[1]][x[2]]
Parity == \A x \in Handed : G(x)[1] # 0 /\ G(x)[1] <= Top /\ G(x)[1] % 2 = (IF Side = "client" THEN 1 ELSE 0)
UniqueInLoop == \A x, y \in Handed : x # y /\ G(x)[3] = G(y)[3] => G(x)[1] # G(y)[1]
FirstLoopFlag == \A x \in Handed : G(x)[2] <=> G(x)[3] = 0
\* the numbers of the loops finished so far are all the numbers of that parity
LoopComplete == \A l \in 0..3 : l < loops => {G(x)[1] : x \in {x \in Handed : G(x)[3] = l}} = {n \in 1..Top : n % 2 = First(Side) % 2}
=============================================================================
