------------------------------- MODULE Bodies -------------------------------
(* Arbitrary bodies behind every frame type and flag combination, and what       *)
(* they say according to the layouts of module FrameLayout.                           *)
EXTENDS Wire, Json
CONSTANTS N, Alphabet
VARIABLES w
F == INSTANCE FrameLayout
Strings == UNION {[1..n -> Alphabet] : n \in 0..N}
Prefixes == {<<>>, Bs(<<0,1,0,2,0,0,0,7,0,0,0,9>>)}
Init == \E t \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 63}, fl \in {0, 64, 128, 256, 384, 1023}, b \in Strings, p \in Prefixes :
          (p # <<>> => t = 1) /\ w = U31(5) \o U16(t * 1024 + fl) \o p \o Bs(b)
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
Emit == PrintT("@" \o ToJson(<<[a |-> "set", wire |-> w, dec |-> F!Decode(w)]>>))
=============================================================================
