-------------------------------- MODULE OpReg --------------------------------
(* Registering operations: exports get a number each (per kind), under which     *)
(* their handler is called; imports get one number per kind and name.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, NSs, Names, D,
          Pairs,   \* {} for every namespace with every name, otherwise the pairs used
          Same     \* only one kind within a behaviour
VARIABLES exps, imps, h
vars == <<exps, imps, h>>
\* exps[k]: sequence of [ns, name, hid]; imps[k]: sequence of <<ns, name>>
AllKinds == {"rr", "fnf", "rs", "rc"}
Init == exps = [k \in AllKinds |-> <<>>] /\ imps = [k \in AllKinds |-> <<>>] /\ h = <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
ExpSet(e) == UNION {{[k |-> k, ns |-> e[k][i].ns, name |-> e[k][i].name, hid |-> e[k][i].hid] : i \in 1..Len(e[k])} : k \in AllKinds}
ImpSet(m) == UNION {{[k |-> k, ns |-> m[k][i][1], name |-> m[k][i][2], no |-> i] : i \in 1..Len(m[k])} : k \in AllKinds}
Export(k, ns, n) ==
  LET e2 == [exps EXCEPT ![k] = Append(@, [ns |-> ns, name |-> n, hid |-> Len(h) + 1])] IN
  /\ exps' = e2 /\ imps' = imps
  /\ h' = Append(h, [a |-> "export", k |-> k, ns |-> ns, name |-> n, hid |-> Len(h) + 1, exps |-> ExpSet(e2), imps |-> ImpSet(imps)])
Import(k, ns, n) ==
  LET m2 == IF <<ns, n>> \in Range(imps[k]) THEN imps ELSE [imps EXCEPT ![k] = Append(@, <<ns, n>>)] IN
  /\ imps' = m2 /\ exps' = exps
  /\ h' = Append(h, [a |-> "import", k |-> k, ns |-> ns, name |-> n, no |-> Pos(m2[k], <<ns, n>>), exps |-> ExpSet(exps), imps |-> ImpSet(m2)])
Next == /\ Len(h) < D
        /\ \E k \in Kinds, p \in (IF Pairs = {} THEN NSs \X Names ELSE Pairs) :
             /\ Same => \A i \in 1..Len(h) : h[i].k = k
             /\ Export(k, p[1], p[2]) \/ Import(k, p[1], p[2])
Spec == Init /\ [][Next]_vars
\* every registration is listed once; numbers of imports are distinct per kind
Listed == /\ Cardinality(ExpSet(exps)) + Cardinality(ImpSet(imps)) <= Len(h)
          /\ Cardinality(ExpSet(exps)) = Cardinality({i \in 1..Len(h) : h[i].a = "export"})
          /\ \A x, y \in ImpSet(imps) : x.k = y.k => (x.no = y.no <=> (x.ns = y.ns /\ x.name = y.name))
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
=============================================================================
