---------------------------------- MODULE Mesh ----------------------------------
(* A mesh: module files are loaded (and loaded again); each loaded instance exports  *)
(* operations by name and kind under numbers of its own, and imports others.  A call  *)
(* reaches the newest instance that exports the operation when the call is made, a    *)
(* module's import as well as a direct call.  A replaced instance goes on for Grace   *)
(* seconds.  After every step, all operations are called and all instances asked      *)
(* directly; what each answers tells which instance and number was reached.  A call    *)
(* held back for longer fails when its instance closes.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Sample,       \* 0, or how many modules (at random) are tried at each step
          Files, Mods,  \* Mods: ex: exports [n, k, i, how], im: imports [n, k, i]
          Names, Ticks, MaxLoads, Helds, Acts, D
VARIABLES I, p, h
vars == <<I, p, h>>
Grace == 5
Live == -1
Closing == 50   \* closed, but it waits for requests it has made itself
Gone == 99
\* what an operation does: answer, hold the answer back, fail, or (16 + j) relay to import j
Answer == 1  Hold == 2  Fail == 5
Tag(x) == "i" \o ToString(x)
Range(s) == {s[n] : n \in 1..Len(s)}
Init == I = <<>> /\ p = <<>> /\ h = <<>>

Res(J, n, k) == LET c == {x \in 1..Len(J) : J[x].age = Live /\ \E e \in Range(J[x].m.ex) : e.n = n /\ e.k = k}
                IN IF c = {} THEN 0 ELSE CHOOSE x \in c : \A y \in c : y <= x
None == [e |-> "error", at |-> 0, i |-> 0, pre |-> "", ch |-> {}]
\* what becomes of a call of number i of kind k at instance x
RECURSIVE Reply(_, _, _, _, _)
Reply(J, x, k, i, fuel) ==
  LET es == {e \in Range(J[x].m.ex) : e.k = k /\ e.i = i} IN
  IF es = {} THEN None
  ELSE LET e == CHOOSE e \in es : TRUE IN
       IF e.how = Answer THEN [None EXCEPT !.e = "ok", !.at = x, !.i = i, !.ch = {x}]
       ELSE IF e.how = Hold THEN [None EXCEPT !.e = "hold", !.at = x, !.i = i, !.ch = {x}]
       ELSE IF e.how = Fail THEN None
       ELSE IF fuel = 0 THEN [None EXCEPT !.e = "loop"]
       ELSE LET ms == {m \in Range(J[x].m.im) : m.k = k /\ m.i = e.how - 16} IN
            IF ms = {} THEN None
            ELSE LET m == CHOOSE m \in ms : TRUE  y == Res(J, m.n, k) IN
                 IF y = 0 THEN None
                 ELSE LET q == (CHOOSE q \in Range(J[y].m.ex) : q.n = m.n /\ q.k = k).i
                          r == Reply(J, y, k, q, fuel - 1)
                      IN [r EXCEPT !.pre = Tag(x) \o ">" \o @, !.ch = @ \cup {x}]
Call(J, n, k) == LET x == Res(J, n, k) IN
                 IF x = 0 THEN None ELSE Reply(J, x, k, (CHOOSE e \in Range(J[x].m.ex) : e.n = n /\ e.k = k).i, Len(J))
Text(r, k, i, d) == r.pre \o Tag(r.at) \o "." \o ToString(k) \o "." \o ToString(i) \o ":" \o d
Items(r, k, d) == IF r.e # "ok" THEN <<>>
                  ELSE IF k = 1 THEN <<Text(r, k, r.i, d)>>
                  ELSE IF k = 3 THEN <<Text(r, k, r.i, d), Text(r, k, r.i, d)>>
                  ELSE <<Text(r, k, r.i, d), Text(r, k, r.i, "1"), Text(r, k, r.i, "2")>>
\* no call goes round
NoLoop(J) == \A x \in 1..Len(J) : \A e \in Range(J[x].m.ex) : Reply(J, x, e.k, e.i, Len(J)).e # "loop"
Obs(J, d) == [calls |-> {[n |-> n, k |-> k, e |-> Call(J, n, k).e, items |-> Items(Call(J, n, k), k, d)] : n \in Names, k \in {1, 3, 4}},
              dir |-> [x \in 1..Len(J) |-> IF J[x].age = Gone THEN -1 ELSE J[x].cnt]]
Log(a, arg, J, q, done) ==
  /\ I' = J /\ p' = q
  /\ h' = Append(h, [a |-> a, arg |-> arg, o |-> Obs(J, "d" \o ToString(Len(h))) @@ [done |-> done]])
Load(f, m) ==
  LET J == Append([x \in 1..Len(I) |-> IF I[x].f = f /\ I[x].age = Live THEN [I[x] EXCEPT !.age = 0] ELSE I[x]],
                  [f |-> f, m |-> m, age |-> Live, cnt |-> 0]) IN
  /\ Len(I) < MaxLoads
  /\ \A g \in Files : g < f => \E x \in 1..Len(I) : I[x].f = g
  /\ NoLoop(J)
  /\ Log("load", [f |-> f, m |-> m, tag |-> Tag(Len(J))], J, p, <<>>)
\* a file that is missing or no module of this kind changes nothing
Bad(f, w) == Log("bad", [f |-> f, w |-> w], I, p, <<>>)
Fnf(n) == LET r == Call(I, n, 2) IN
          Log("fnf", [n |-> n], IF r.e = "ok" THEN [I EXCEPT ![r.at].cnt = @ + 1] ELSE I, p, <<>>)
\* a call whose answer is held back; it ends when the instance lets go, also once it has been replaced
HoldCall(n) == LET r == Call(I, n, 1) IN
               /\ r.e = "hold" /\ Len(p) < Helds
               /\ Log("hold", [n |-> n], I, Append(p, [at |-> r.at, ch |-> r.ch, t |-> Text(r, 1, 99, ""), on |-> TRUE]), <<>>)
\* an instance is closed after the grace.  It is gone once the requests it made have ended; what it was asked and has not answered then fails.
Busy(q, x) == \E n \in 1..Len(q) : q[n].on /\ x \in q[n].ch /\ x # q[n].at
RECURSIVE Settle(_, _)
Settle(J, q) == LET die == {x \in 1..Len(J) : J[x].age = Closing /\ ~Busy(q, x)} IN
                IF die = {} THEN [J |-> J, q |-> q]
                ELSE Settle([x \in 1..Len(J) |-> IF x \in die THEN [J[x] EXCEPT !.age = Gone] ELSE J[x]],
                            [n \in 1..Len(q) |-> IF q[n].at \in die THEN [q[n] EXCEPT !.on = FALSE] ELSE q[n]])
Release(x) == /\ I[x].age # Gone
              /\ \E n \in 1..Len(p) : p[n].on /\ p[n].at = x
              /\ LET e == Settle(I, [n \in 1..Len(p) |-> IF p[n].at = x THEN [p[n] EXCEPT !.on = FALSE] ELSE p[n]]) IN
                 Log("release", [x |-> x], e.J, e.q,
                     \* an answer through an instance that waits for it to be gone may come too late
                     [n \in 1..Len(p) |-> IF ~p[n].on THEN {""}
                                          ELSE IF p[n].at = x THEN {p[n].t} \cup (IF \E y \in p[n].ch \ {x} : I[y].age = Closing THEN {"error"} ELSE {})
                                          ELSE IF e.q[n].on THEN {""} ELSE {"error"}])
Tick(d) == LET e == Settle([x \in 1..Len(I) |-> IF I[x].age \in {Live, Closing, Gone} THEN I[x]
                                                 ELSE [I[x] EXCEPT !.age = IF @ + d >= Grace THEN Closing ELSE @ + d]], p) IN
           /\ \E x \in 1..Len(I) : I[x].age \notin {Live, Closing, Gone}
           /\ Log("tick", [d |-> d], e.J, e.q, [n \in 1..Len(p) |-> IF p[n].on /\ ~e.q[n].on THEN {"error"} ELSE {""}])
Step == Len(h) < D /\ (\/ Len(I) < MaxLoads /\ \E f \in Files, m \in (IF Sample = 0 THEN Mods ELSE RandomSubset(Sample, Mods)) : Load(f, m)
                       \/ "bad" \in Acts /\ I # <<>> /\ \E f \in Files, w \in {"missing", "garbage", "empty", "first"} : Bad(f, w)
                       \/ "fnf" \in Acts /\ \E n \in Names : Fnf(n)
                       \/ "hold" \in Acts /\ ((\E n \in Names : HoldCall(n)) \/ \E x \in 1..Len(I) : Release(x))
                       \/ \E d \in Ticks : Tick(d))
Next == Step
Spec == Init /\ [][Next]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<[x \in 1..Len(I) |-> [I[x] EXCEPT !.cnt = 0]], p>>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* one live instance per file; every call reaches a live one; whatever some live instance exports can be called
OnePerFile == \A x, y \in 1..Len(I) : I[x].age = Live /\ I[y].age = Live /\ I[x].f = I[y].f => x = y
Newest == \A n \in Names, k \in 1..4 :
            LET x == Res(I, n, k) IN
            /\ x # 0 => I[x].age = Live
            /\ x = 0 => \A y \in 1..Len(I) : I[y].age = Live => \A e \in Range(I[y].m.ex) : ~(e.n = n /\ e.k = k)
\* a call under way is at an instance that still runs
Held == \A n \in 1..Len(p) : p[n].on => \A x \in p[n].ch : I[x].age # Gone
=============================================================================
