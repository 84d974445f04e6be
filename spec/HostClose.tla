------------------------------- MODULE HostClose -------------------------------
(* The host of a module while it is closed: requests of the module (slots Rs), each  *)
(* under way from its arrival until it is answered, failed, cancelled or rejected;   *)
(* calls of Close, which return once nothing is under way.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rs, Cs,      \* requests, closers
          Kinds, Bads, \* kinds of requests; "op" unknown operation, "md" short metadata, "dec" not decodable
          D
VARIABLES r, c, h,
          n   \* calls of the host which the module has not answered
vars == <<r, c, h, n>>
New == [k |-> "", ph |-> "none", under |-> FALSE, in |-> FALSE]
Init == r = [x \in Rs |-> New] /\ c = [x \in Cs |-> "none"] /\ h = <<>> /\ n = 0
V == Len(h) + 1
Busy(q) == \E x \in Rs : q[x].under
Closed == \E x \in Cs : c[x] = "done"
Waiting == \E x \in Cs : c[x] # "none"
\* after a step every waiting Close returns if nothing is under way
Settle(q, cc) == [x \in Cs |-> IF cc[x] = "wait" /\ ~Busy(q) THEN "done" ELSE cc[x]]
Log(a, s, arg, q, cc, out, ev) ==
  /\ r' = q /\ c' = Settle(q, cc)
  \* closing fails what nobody can answer any more
  /\ LET now == ~Closed /\ \E x \in Cs : Settle(q, cc)[x] = "done" IN
     /\ n' = IF now \/ Closed THEN 0 ELSE IF a = "send" /\ arg.w \in {"rr", "rs"} THEN n + 1 ELSE n
     /\ h' = Append(h, [a |-> a, s |-> s, arg |-> arg,
                     o |-> [out |-> IF Closed THEN <<>> ELSE out, ev |-> ev \o (IF now THEN [j \in 1..n |-> [s |-> "", e |-> "failed"]] ELSE <<>>), closed |-> {x \in Cs : Settle(q, cc)[x] = "done"}]])
F(s, t) == <<[s |-> s, t |-> t]>>
Arrive(s) == /\ r[s].ph = "none"
  /\ \E k \in Kinds, b \in {""} \cup Bads :
     LET ok == b = "" /\ ~Closed
         q == [r EXCEPT ![s] = [k |-> k, ph |-> IF ~ok \/ k = "fnf" THEN "over" ELSE IF k = "rr" THEN "live" ELSE "gate",
                                under |-> ok /\ k # "fnf", in |-> ok /\ k = "rc"]]
     IN Log("arrive", s, [k |-> k, b |-> b], q, c, IF b = "" THEN <<>> ELSE F(s, "error"), IF ok THEN <<[s |-> s, e |-> "call"]>> ELSE <<>>)
\* the handler of a stream returns; what it returned is told when the request was cancelled meanwhile
Return(s) == /\ r[s].ph = "gate"
  /\ \E w \in {"create", "error"} :
     LET u == r[s].under IN
     Log("return", s, [w |-> w], [r EXCEPT ![s].ph = IF w = "error" THEN "over" ELSE "live", ![s].under = (u /\ w = "create"), ![s].in = @ /\ w = "create"], c,
         IF u /\ w = "error" THEN F(s, "error") ELSE <<>>, IF ~u /\ w = "create" THEN <<[s |-> s, e |-> "stopped"]>> ELSE <<>>)
\* the handler's publisher ends, also again and after the end
End(s) == /\ r[s].ph = "live"
  /\ \E w \in {"complete", "error", "big"} :
     LET u == r[s].under IN
     Log("end", s, [w |-> w], [r EXCEPT ![s].under = FALSE, ![s].in = @ /\ w = "complete"], c,
         IF u THEN F(s, IF w # "complete" THEN "error" ELSE IF r[s].k = "rr" THEN "last" ELSE "complete") ELSE <<>>,
         IF u /\ w = "big" /\ r[s].k # "rr" THEN <<[s |-> s, e |-> "cancel"]>> ELSE <<>>)
\* frames of the module for the request
Frame(s) == /\ r[s].ph # "none"
  /\ \E t \in {"cancel", "complete", "error"} :
     LET x == r[s]  stream == x.k \in {"rs", "rc"}  u == x.under /\ ~Closed IN
     IF t = "cancel" /\ stream
     THEN Log("frame", s, [t |-> t], [r EXCEPT ![s].under = FALSE, ![s].in = FALSE], c, <<>>, IF u /\ x.ph = "live" THEN <<[s |-> s, e |-> "cancel"]>> ELSE <<>>)
     ELSE Log("frame", s, [t |-> t], [r EXCEPT ![s].in = FALSE], c, <<>>, <<>>)
\* the host sends for itself
Send == \E w \in {"fnf", "rr", "rs", "frame"} :
  Log("send", "", [w |-> w], r, c, IF w = "frame" THEN F("", "payload") ELSE F("", "req"), IF Closed /\ w \in {"rr", "rs"} THEN <<[s |-> "", e |-> "failed"]>> ELSE <<>>)
Close(x) ==
  /\ c[x] = "none"
  /\ \A y \in Cs : y < x => c[y] # "none"
  /\ Log("close", "", [c |-> x], r, [c EXCEPT ![x] = "wait"], <<>>, <<>>)
Step == Len(h) < D /\ ((\E s \in Rs : Arrive(s) \/ Return(s) \/ End(s) \/ Frame(s)) \/ Send \/ \E x \in Cs : Close(x))
Next == Step
Spec == Init /\ [][Next]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<r, c, n > 0, h = <<>> \/ h[Len(h)].a = "send">>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* Close has not returned while a request is under way, and has returned otherwise
Waits == \A x \in Cs : (c[x] = "wait" => Busy(r))
Returns == [][\A x \in Cs : (c[x] # "done" /\ c'[x] = "done") => ~Busy(r')]_vars
\* every request is answered once at most
Once == \A s \in Rs : Cardinality({i \in 1..Len(h) : \E j \in 1..Len(h[i].o.out) : h[i].o.out[j].s = s}) <= 1
\* nothing leaves once a Close has returned
Silent == \A i \in 2..Len(h) : h[i - 1].o.closed # {} => h[i].o.out = <<>>
\* nobody waits for an answer once a Close has returned
NobodyWaits == Closed => n = 0
=============================================================================
