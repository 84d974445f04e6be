------------------------------ MODULE MsgWrite -------------------------------
(* Every value of a family with its encoding, for all writers that can write it. *)
EXTENDS MsgPack
CONSTANTS Values
VARIABLES v
Init == v \in Values
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
W == Enc(v)
Pair(p) == Enc(p[1]) \o Enc(p[2])
\* reading back gives the value and consumes exactly its bytes, whatever follows, and no prefix says anything
Whole == v.k \notin {"rep", "asize", "msize"}
RoundTrip == Whole => LET d == Dec(W \o U8(7)) IN d.ok /\ d.n = Size(W) /\ (LET a == Dyn(d.v) IN a.r = "val" => a.v = Norm(v))
NoPrefix == Whole => \A c \in 0..(IF Size(W) > 40 THEN 40 ELSE Size(W) - 1) : ~Dec(Take(W, c)).ok
\* a header says its number of items
Heads == v.k \in {"asize", "msize"} => LET o == ReadSize(W, IF v.k = "asize" THEN ArrFmt ELSE MapFmt) IN o.r = "val" /\ o.v.b = v.b /\ o.n = Size(W)
Emit == PrintT("@" \o ToJson(<<[a |-> "write", v |-> v, wire |-> W, size |-> Size(W),
                               head |-> IF v.k = "map" THEN MapHead(Len(v.l)) ELSE <<>>,
                               parts |-> IF v.k = "map" THEN [j \in 1..Len(v.l) |-> Pair(v.l[j])] ELSE <<>>]>>))
=============================================================================
