-------------------------------- MODULE Modules --------------------------------
(* Instances of modules on one or several hosts.  A module that cannot be used is      *)
(* refused.  A module may fail at a frame it is given (it traps), which ends the       *)
(* request the frame belongs to, or end altogether (it exits), which ends all requests *)
(* it has not answered; neither touches other instances.  After every step, every      *)
(* instance is asked how many fire-and-forget requests it has seen.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Sample,     \* 0, or how many modules (at random) are tried at each step
          Mods,       \* made of C: [bad, hows]: what fails at the start, what operation k does when asked by a request of kind j: hows[j][k + 1]
          Shapes,     \* made by hand: [init, send, list, mem]: "ok", "none", "params", "trap", "global"; memory or not
          Hosts, Kinds, Acts, MaxInst, MaxHeld, D
VARIABLES I, p, h
vars == <<I, p, h>>
Range(s) == {s[n] : n \in 1..Len(s)}
Init == I = <<>> /\ p = <<>> /\ h = <<>>

\* what fails at the start
RefusedC(bad) == bad \in (1..13) \cup {15, 16}
RefusedS(s) == s.init # "ok" \/ s.list # "ok" \/ s.send \in {"none", "global"} \/ ~s.mem
Deaf(x) == IF I[x].shape THEN I[x].m.send # "ok" ELSE I[x].m.bad = 17  \* never sees a frame

\* what becomes of a request: the values it gets, and how it ends: "ok", "error", "hold" (an answer can come), "open" (nothing comes)
\* then: what becomes of the instance
Plain(v) == [items |-> v, e |-> "ok", dead |-> FALSE]
Ask(x, k, how) ==
  LET v == IF k = 1 THEN <<"f">> ELSE IF k = 3 THEN <<"f", "f">> ELSE <<"f", "1", "2">>
      R(items, e, dead) == [items |-> items, e |-> e, dead |-> dead] IN
  IF I[x].dead \/ Deaf(x) THEN R(<<>>, "error", FALSE)
  ELSE IF I[x].shape THEN R(<<>>, "open", FALSE)
  ELSE CASE how = 1 -> R(v, "ok", FALSE)
         [] how = 2 -> R(<<>>, "hold", FALSE)
         [] how \in {0, 5, 6} -> R(<<>>, "error", FALSE)
         [] how = 7 -> R(<<>>, "error", TRUE)
         [] how \in {8, 9} -> IF k = 4 THEN R(<<"f">>, "error", how = 9) ELSE R(v, "ok", how = 9)
         [] how = 10 -> IF k = 1 THEN R(<<"f">>, "ok", FALSE) ELSE R(<<"f">>, "error", FALSE)
         [] how = 11 -> IF k = 1 THEN R(<<"f">>, "ok", FALSE) ELSE IF k = 3 THEN R(<<"f">>, "open", FALSE) ELSE R(<<"f">>, "error", FALSE)
Stat(J, x) == IF J[x].shape THEN -2 ELSE IF J[x].dead \/ J[x].m.bad = 17 THEN -1 ELSE J[x].cnt
Log(a, arg, J, q, ret, done) ==
  /\ I' = J /\ p' = q
  /\ h' = Append(h, [a |-> a, arg |-> arg, o |-> [ret |-> ret, done |-> done, st |-> [x \in 1..Len(J) |-> Stat(J, x)]]])
None == [e |-> "", items |-> <<>>]
Quiet(q) == [n \in 1..Len(q) |-> ""]
Inst(host, m, shape) ==
  LET bad == IF shape THEN RefusedS(m) ELSE RefusedC(m.bad) IN
  /\ Len(I) < MaxInst
  /\ Log("inst", [host |-> host, m |-> m, shape |-> shape],
         IF bad THEN I ELSE Append(I, [m |-> m, shape |-> shape, dead |-> FALSE, cnt |-> 0]), p,
         [None EXCEPT !.e = IF bad THEN "error" ELSE "ok"], Quiet(p))
Die(x, J) == [J EXCEPT ![x].dead = TRUE]
Lost(x, q) == [n \in 1..Len(q) |-> IF q[n].at = x THEN [q[n] EXCEPT !.on = FALSE] ELSE q[n]]
Told(x, q, v) == [n \in 1..Len(q) |-> IF q[n].on /\ q[n].at = x THEN v ELSE ""]
Call(x, k, how) ==
  LET r == Ask(x, k, how)
      J == IF r.dead THEN Die(x, I) ELSE I
      q == IF r.dead THEN Lost(x, p) ELSE p
      t == IF r.dead THEN Told(x, p, "error") ELSE Quiet(p)
      open == r.e \in {"hold", "open"} IN
  /\ open => Len(p) < MaxHeld
  /\ Log("call", [x |-> x, k |-> k, how |-> how], J,
         IF open THEN Append(q, [at |-> x, on |-> TRUE, kind |-> r.e]) ELSE q, [items |-> r.items, e |-> IF open THEN "" ELSE r.e], t)
Fnf(x, how) ==
  LET deaf == I[x].dead \/ Deaf(x) \/ I[x].shape
      dies == ~deaf /\ how = 7 IN
  Log("fnf", [x |-> x, how |-> how], IF deaf THEN I ELSE IF dies THEN Die(x, I) ELSE IF how = 1 THEN [I EXCEPT ![x].cnt = @ + 1] ELSE I,
      IF dies THEN Lost(x, p) ELSE p, None, IF dies THEN Told(x, p, "error") ELSE Quiet(p))
Release(x) == /\ ~I[x].dead /\ ~I[x].shape /\ \E n \in 1..Len(p) : p[n].on /\ p[n].at = x /\ p[n].kind = "hold"
              /\ Log("release", [x |-> x], I, [n \in 1..Len(p) |-> IF p[n].at = x /\ p[n].kind = "hold" THEN [p[n] EXCEPT !.on = FALSE] ELSE p[n]],
                     None, [n \in 1..Len(p) |-> IF p[n].on /\ p[n].at = x /\ p[n].kind = "hold" THEN "ok" ELSE ""])
Close(x) == Log("close", [x |-> x], Die(x, I), Lost(x, p), None, Told(x, p, "error"))
Hows(x, k) == IF I[x].shape THEN {1} ELSE {I[x].m.hows[k][j] : j \in 1..Len(I[x].m.hows[k])}
Step == Len(h) < D /\ (\/ Len(I) < MaxInst /\ \E host \in Hosts : \/ \E m \in (IF Sample = 0 THEN Mods ELSE RandomSubset(Sample, Mods)) : Inst(host, m, FALSE)
                                                                 \/ \E m \in (IF Sample = 0 \/ Shapes = {} THEN Shapes ELSE RandomSubset(Sample, Shapes)) : Inst(host, m, TRUE)
                       \/ \E x \in 1..Len(I) : \/ \E k \in Kinds \ {2} : \E how \in Hows(x, k) : Call(x, k, how)
                                               \/ 2 \in Kinds /\ \E how \in Hows(x, 2) : Fnf(x, how)
                                               \/ "release" \in Acts /\ Release(x)
                                               \/ "close" \in Acts /\ Close(x))
Spec == Init /\ [][Step]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<[x \in 1..Len(I) |-> [I[x] EXCEPT !.cnt = 0]], p>>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* no request waits for an instance that is gone; an instance that failed at a frame goes on
NobodyWaits == \A n \in 1..Len(p) : p[n].on => ~I[p[n].at].dead
\* what one instance is told or suffers changes no other
Apart == [][\A x \in 1..Len(I) : I'[x] # I[x] => h'[Len(h')].arg.x = x]_vars
Refused == \A n \in 1..Len(h) : h[n].a = "inst" /\ h[n].o.ret.e = "error" => Len(h[n].o.st) = (IF n = 1 THEN 0 ELSE Len(h[n - 1].o.st))
=============================================================================
