------------------------------- MODULE HandOver -------------------------------
(* The shared buffers between a host and a module, seen by one side.  An "in" step is  *)
(* a hand-over of several frames by the other side; while a frame is being handled the *)
(* side may send one itself.  An "out" step sends a frame; while the other side handles *)
(* it, that side may hand frames over.  Sizes are those of the frames; each goes with   *)
(* three bytes of length.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS InSizes,      \* sizes of frames handed over (below Least: no frames at all)
          OutSizes,     \* sizes of frames sent
          MaxList,      \* frames per hand-over
          Cuts,         \* "no"; "len", "body": the last frame is cut off; "more", "beyond": more is announced than there is
          CapIn, CapOut, Least, D
VARIABLES h
vars == <<h>>
Init == h = <<>>
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE Head(l) + 3 + Total(Tail(l))
Lists == UNION {[1..n -> InSizes] : n \in 1..MaxList}
Fits == {l \in Lists : Total(l) <= CapIn}
Frames(l) == SelectSeq([j \in 1..Len(l) |-> [n |-> l[j], j |-> j]], LAMBDA x : x.n >= Least)
Idx(q) == [i \in 1..Len(q) |-> q[i].j]
\* which frames of a hand-over are delivered
Got(l, cut) == Idx(IF cut \in {"len", "body"} THEN Frames(SubSeq(l, 1, Len(l) - 1)) ELSE Frames(l))
Leaves(n) == IF n + 3 <= CapOut THEN [out |-> <<n>>, refused |-> 0] ELSE [out |-> <<>>, refused |-> 1]
Log(a, arg, got, x) == h' = Append(h, [a |-> a, arg |-> arg, o |-> [got |-> got, out |-> x.out, refused |-> x.refused]])
In == \E l \in Fits, cut \in Cuts, at \in 0..MaxList :
  /\ at <= Len(l) /\ (at > 0 => l[at] >= Least)
  /\ (cut = "body" => l[Len(l)] >= 1)
  /\ \E n \in IF at = 0 THEN {0} ELSE OutSizes :
     LET got == Got(l, cut)
         x == IF at > 0 /\ \E i \in 1..Len(got) : got[i] = at THEN Leaves(n) ELSE [out |-> <<>>, refused |-> 0] IN
     Log("in", [l |-> l, cut |-> cut, at |-> at, n |-> n], got, x)
Out == \E n \in OutSizes : \E l \in Fits \cup {<<>>} :
  LET x == Leaves(n) IN Log("out", [n |-> n, l |-> l], IF x.out = <<>> \/ l = <<>> THEN <<>> ELSE Got(l, "no"), x)
\* the memory of the module grows and moves
Grow == h # <<>> /\ h[Len(h)].a # "grow" /\ Log("grow", [n |-> 0], <<>>, [out |-> <<>>, refused |-> 0])
Next == Len(h) < D /\ (In \/ Out \/ Grow)
Spec == Init /\ [][Next]_vars
\* one random step of each kind (the sets are large)
RIn == \E k \in {RandomElement(1..MaxList)}, cut \in {RandomElement(Cuts)} :
  \E l \in {[j \in 1..k |-> RandomElement(InSizes)]}, at \in {RandomElement(0..k)}, n \in {RandomElement(OutSizes)} :
  /\ Total(l) <= CapIn /\ (at > 0 => l[at] >= Least) /\ (cut = "body" => l[Len(l)] >= 1)
  /\ LET got == Got(l, cut)
         x == IF at > 0 /\ \E i \in 1..Len(got) : got[i] = at THEN Leaves(n) ELSE [out |-> <<>>, refused |-> 0] IN
     Log("in", [l |-> l, cut |-> cut, at |-> at, n |-> IF at = 0 THEN 0 ELSE n], got, x)
ROut == \E k \in {RandomElement(0..MaxList)} : \E l \in {[j \in 1..k |-> RandomElement(InSizes)]}, n \in {RandomElement(OutSizes)} :
  /\ Total(l) <= CapIn
  /\ LET x == Leaves(n) IN Log("out", [n |-> n, l |-> l], IF x.out = <<>> \/ l = <<>> THEN <<>> ELSE Got(l, "no"), x)
RSpec == Init /\ [][Len(h) < D /\ (RIn \/ ROut \/ Grow)]_vars
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* a frame too large for its buffer never leaves; nothing is delivered twice or out of order
Sound == \A i \in 1..Len(h) :
  /\ \A j \in 1..Len(h[i].o.out) : h[i].o.out[j] + 3 <= CapOut
  /\ \A j \in 2..Len(h[i].o.got) : h[i].o.got[j - 1] < h[i].o.got[j]
=============================================================================
