------------------------------ MODULE OpTable -------------------------------
(* The binary operation list: magic, version 1, number of operations, then per  *)
(* operation kind, direction, number, namespace, name and a reserved field.      *)
EXTENDS Wire, Json
CONSTANTS Types, Dirs, Idxs, NSs, Names, Res, MaxOps, Phase, Vals
VARIABLES t, mut
vars == <<t, mut>>
Magic == Bs(<<0, 119, 114, 115>>)
EncOp(o) == U8(o.type) \o U8(o.dir) \o Bs(o.idx) \o U16(Size(o.ns)) \o o.ns \o U16(Size(o.name)) \o o.name \o U16(o.res) \o Fill(170, o.res)
Encode(s) == Magic \o U16(1) \o U31(Len(s)) \o Concat([k \in 1..Len(s) |-> EncOp(s[k])])
Bad == [ok |-> FALSE]
N16(w) == At(w, 1) * 256 + At(w, 2)
RECURSIVE Ops(_,_)
\* n operations at the front of w
Ops(w, n) ==
  IF n = 0 THEN [ok |-> TRUE, ops |-> <<>>]
  ELSE IF Size(w) < 8 \/ Size(w) < 8 + N16(Drop(w, 6)) + 2 THEN Bad
  ELSE LET ns == Take(Drop(w, 8), N16(Drop(w, 6)))
           r == Drop(w, 8 + N16(Drop(w, 6)))
       IN IF Size(r) < 2 + N16(r) + 2 THEN Bad
          ELSE LET r2 == Drop(r, 2 + N16(r))
               IN IF Size(r2) < 2 + N16(r2) THEN Bad
                  ELSE LET rest == Ops(Drop(r2, 2 + N16(r2)), n - 1)
                       IN IF ~rest.ok THEN Bad
                          ELSE [ok |-> TRUE, ops |-> <<[type |-> At(w, 1), dir |-> At(w, 2), idx |-> <<At(w, 3), At(w, 4), At(w, 5), At(w, 6)>>,
                                                      ns |-> Join(ns), name |-> Join(Take(Drop(r, 2), N16(r)))]>> \o rest.ops]
Decode(w) ==
  IF Size(w) < 10 \/ Join(Take(w, 4)) # Join(Magic) \/ N16(Drop(w, 4)) # 1 THEN Bad
  ELSE IF At(w, 7) + At(w, 8) > 0 THEN Bad               \* more than 65535 operations do not fit the inputs here
  ELSE IF N16(Drop(w, 8)) * 12 > Size(w) - 10 THEN Bad
  ELSE Ops(Drop(w, 10), N16(Drop(w, 8)))
OpSet == [type : Types, dir : Dirs, idx : Idxs, ns : NSs, name : Names, res : Res]
Tables == UNION {[1..n -> OpSet] : n \in 0..MaxOps}
Muts(s) == CASE Phase = "round" -> {[m |-> "none"]}
             [] Phase = "cut" -> {[m |-> "cut", n |-> i] : i \in 0..(Size(Encode(s)) - 1)}
             [] OTHER -> {[m |-> "set", n |-> i, v |-> v] : i \in 1..Size(Encode(s)), v \in Vals}
Apply(w, m) == CASE m.m = "none" -> w
                 [] m.m = "cut" -> Take(w, m.n)
                 [] OTHER -> Take(w, m.n - 1) \o U8(m.v) \o Drop(w, m.n)
Init == t \in Tables /\ mut \in Muts(t)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RoundTrip == LET d == Decode(Encode(t)) IN
             d.ok /\ Len(d.ops) = Len(t) /\ \A k \in 1..Len(t) : d.ops[k] = [type |-> t[k].type, dir |-> t[k].dir, idx |-> t[k].idx, ns |-> Join(t[k].ns), name |-> Join(t[k].name)]
Emit == PrintT("@" \o ToJson(<<[a |-> mut.m, t |-> t, wire |-> Apply(Encode(t), mut), dec |-> Decode(Apply(Encode(t), mut))]>>))
=============================================================================
