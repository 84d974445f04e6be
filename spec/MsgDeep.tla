------------------------------- MODULE MsgDeep -------------------------------
(* Hostile sizes: values nested very deep, and headers that announce far more    *)
(* than the input holds.                                                          *)
EXTENDS MsgPack
CONSTANTS Depths, Heads, Chains
VARIABLES c
\* n arrays of one element (or maps with one nil key) around a leaf, complete or not
Layer == [arr |-> <<145>>, arr16 |-> <<220, 0, 1>>, map |-> <<129, 192>>, map32 |-> <<223, 0, 0, 0, 1, 192>>]
Unit(x) == Layer[x.l]
RECURSIVE Nest(_,_)
Nest(u, n) == IF n = 0 THEN U8(192) ELSE Bs(u) \o Nest(u, n - 1)
Init == \/ c \in [a : {"deep"}, l : DOMAIN Layer, n : Depths, whole : BOOLEAN]
        \/ c \in [a : {"head"}, l : {"-"}, n : {0}, whole : Heads]
        \* many such headers in a row: none of them is complete (one of 64 KB would be)
        \/ c \in {x \in [a : {"chain"}, l : {"-"}, n : Chains, whole : Heads] : x.whole[1] = 197 => 3 * x.n < 65538}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* a nested value is one value, whatever its depth: here for small depths; by induction for all
Induct == c.a = "deep" /\ c.n <= 40 => Dec(Nest(Unit(c), c.n)).ok = TRUE /\ Dec(Nest(Unit(c), c.n)).n = c.n * Len(Unit(c)) + 1
Emit == PrintT("@" \o ToJson(<<IF c.a = "deep" THEN [a |-> "deep", unit |-> Unit(c), n |-> c.n, whole |-> c.whole, size |-> c.n * Len(Unit(c)) + 1]
                               ELSE [a |-> c.a, unit |-> c.whole, n |-> c.n]>>))
=============================================================================
