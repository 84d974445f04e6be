-------------------------------- MODULE Engine --------------------------------
(* One endpoint (socket peer, guest module or host of a module): the streams it   *)
(* answers (slots Ins) and the requests it makes (slots Outs).  Peer actions are  *)
(* frames that arrive; the endpoint answers each action with frames that leave    *)
(* (out) and with what its handlers, publishers and subscribers see (ev).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ins, Outs,        \* slots, e.g. {"i1"}, {"o1"}
          InKinds, OutKinds,\* subsets of {"rr","fnf","rs","rc"}
          Pubs,             \* what a handler returns: {"create","error","slice"}
          Feeds,            \* what an outgoing channel sends: {"create","error","slice","none"}
          Ns,               \* amounts of demand
          Gated,            \* handlers run on their own: frames can arrive before they return
          Acts,             \* names of the actions explored
          Bad,              \* {} or subset of {"op","md"}: malformed requests
          Downs,            \* {} or how the connection (or the instance) can end: {"eof","close","ctx","bad"}
          Patient,          \* it ends only when every incoming request has been answered
          Calm,             \* (simulation) no two steps without any effect in a row, and one last step
          D
VARIABLES in, out, h, dn   \* dn: how it has ended, or ""
vars == <<in, out, h, dn>>
SliceLen == 3
New == [k |-> "", ph |-> "none", pv |-> "", open |-> FALSE, feed |-> FALSE, dead |-> FALSE, pend |-> 0, dem |-> 0,
        sub |-> FALSE, ind |-> 0, iend |-> FALSE, q |-> <<>>, left |-> 0, again |-> 0, keep |-> FALSE, obs |-> FALSE, aw |-> FALSE]
Init == in = [s \in Ins |-> New] /\ out = [s \in Outs |-> New] /\ h = <<>> /\ dn = ""
V == Len(h) + 1
Min(a, b) == IF a < b THEN a ELSE b
Res(r, o, e) == [r |-> r, o |-> o, e |-> e]
F(s, t) == [s |-> s, t |-> t, v |-> 0, n |-> 0, k |-> ""]
FV(s, t, v) == [F(s, t) EXCEPT !.v = v]
FN(s, t, n) == [F(s, t) EXCEPT !.n = n]
E(s, w, e, v) == [w |-> s \o w, e |-> e, v |-> v]
None(r) == Res(r, <<>>, <<>>)
SV(base, j) == 1000 * base + j   \* j-th value of a slice made at step base

(************************** answering ***************************************)
\* d units of demand reach a slice: values, then the end
SliceOut(s, r, d) ==
  LET n == Min(d, r.left)  first == SliceLen - r.left IN
  Res([r EXCEPT !.left = @ - n, !.open = (r.left - n > 0)],
      [j \in 1..n |-> FV(s, "next", SV(r.again, first + j))] \o (IF r.left - n = 0 THEN <<F(s, "complete")>> ELSE <<>>), <<>>)
Return(s, r, pv) ==
  LET r1 == [r EXCEPT !.ph = "live", !.pv = pv, !.left = SliceLen, !.again = V, !.pend = 0] IN
  IF r.k = "fnf" THEN None([r1 EXCEPT !.pv = "none"])
  ELSE IF r.k = "rr" THEN CASE pv = "create" -> None([r1 EXCEPT !.pv = "mono"])
                            [] pv = "error"  -> Res([r1 EXCEPT !.pv = "gone", !.open = FALSE], <<FV(s, "error", V)>>, <<>>)
                            [] pv = "slice"  -> Res([r1 EXCEPT !.pv = "gone", !.open = FALSE], <<FV(s, "last", V)>>, <<>>)
  ELSE IF r.dead THEN Res(r1, <<>>, IF pv = "create" THEN <<E(s, ":p", "stopped", 0)>> ELSE <<>>)
  ELSE CASE pv = "create" -> Res([r1 EXCEPT !.dem = r.pend], <<>>, IF r.pend > 0 THEN <<E(s, ":p", "req", r.pend)>> ELSE <<>>)
         [] pv = "error"  -> Res([r1 EXCEPT !.open = FALSE, !.feed = FALSE], <<FV(s, "error", V)>>, <<>>)
         [] pv = "slice"  -> IF r.pend > 0 THEN SliceOut(s, r1, r.pend) ELSE None(r1)
Request(s, r, k, n, bad, pv) ==
  LET call == <<E(s, ":h", "call", V)>>  r0 == [r EXCEPT !.k = k] IN
  IF bad # "" THEN Res([r0 EXCEPT !.ph = "live", !.pv = "bad"], <<FV(s, "error", 0)>>, <<>>)
  ELSE LET r1 == [r0 EXCEPT !.ph = "gate", !.open = (k # "fnf"), !.feed = (k = "rc"), !.pend = IF k \in {"rs", "rc"} THEN n ELSE 0] IN
       IF Gated THEN Res(r1, <<>>, call)
       ELSE LET x == Return(s, r1, pv) IN Res(x.r, x.o, call \o x.e)
\* a signal of the requester for the handler's input
Feed(s, r, e) ==
  LET ends == e.e # "next"  r1 == IF ends THEN [r EXCEPT !.feed = FALSE] ELSE r IN
  IF ~r.sub THEN Res([r1 EXCEPT !.q = Append(@, e)], <<>>, <<>>)
  ELSE IF r.iend THEN None(r1)
  ELSE Res([r1 EXCEPT !.iend = ends], <<>>, <<e>>)
RECURSIVE FeedAll(_, _, _)
FeedAll(s, r, es) == IF es = <<>> \/ ~r.feed THEN None(r)
                     ELSE LET x == Feed(s, r, Head(es))  y == FeedAll(s, x.r, Tail(es)) IN Res(y.r, <<>>, x.e \o y.e)
\* frames that arrive for a stream being answered
InFrame(s, r, f) ==
  IF r.ph = "none" \/ r.k \in {"rr", "fnf"} THEN None(r)
  ELSE CASE f.t = "reqn" ->
              IF ~r.open THEN None(r)
              ELSE IF r.ph = "gate" THEN None([r EXCEPT !.pend = @ + f.n])
              ELSE IF r.pv = "slice" THEN SliceOut(s, r, f.n)
              ELSE Res([r EXCEPT !.dem = @ + f.n], <<>>, <<E(s, ":p", "req", f.n)>>)
         [] f.t = "cancel" ->
              IF ~(r.open \/ r.feed) THEN None(r)
              ELSE LET r1 == [r EXCEPT !.open = FALSE, !.dead = (@ \/ r.ph = "gate")]
                       x == IF r.feed THEN Feed(s, r1, E(s, ":i", "complete", 0)) ELSE None(r1) IN
                   Res(x.r, <<>>, (IF r.open /\ r.ph = "live" /\ r.pv = "create" THEN <<E(s, ":p", "cancel", 0)>> ELSE <<>>) \o x.e)
         [] f.t = "next" -> FeedAll(s, r, <<E(s, ":i", "next", V)>>)
         [] f.t = "complete" -> FeedAll(s, r, <<E(s, ":i", "complete", 0)>>)
         [] f.t = "last" -> FeedAll(s, r, <<E(s, ":i", "next", V), E(s, ":i", "complete", 0)>>)
         [] f.t = "error" -> FeedAll(s, r, <<E(s, ":i", "error", V)>>)
\* what the handler's publisher does
HNext(s, r)     == IF r.open THEN Res([r EXCEPT !.dem = @ - 1], <<FV(s, "next", V)>>, <<>>) ELSE None([r EXCEPT !.again = -1])
\* a value that does not fit: the stream fails and its publisher is stopped
HBig(s, r)      == IF r.open THEN Res([r EXCEPT !.open = FALSE, !.feed = FALSE], <<FV(s, "error", 0)>>,
                                      IF r.k = "rr" THEN <<>> ELSE <<E(s, ":p", "cancel", 0)>>) ELSE None([r EXCEPT !.again = -1])
HSuccess(s, r)  == IF r.open THEN Res([r EXCEPT !.open = FALSE], <<FV(s, "last", V)>>, <<>>) ELSE None([r EXCEPT !.again = -1])
HComplete(s, r) == IF r.open THEN Res([r EXCEPT !.open = FALSE], <<F(s, "complete")>>, <<>>) ELSE None([r EXCEPT !.again = -1])
HError(s, r)    == IF r.open THEN Res([r EXCEPT !.open = FALSE, !.feed = FALSE], <<FV(s, "error", V)>>, <<>>) ELSE None([r EXCEPT !.again = -1])
\* what the handler does with its input
HInSub(s, r) ==
  LET ended == r.q # <<>> /\ r.q[Len(r.q)].e # "next" IN
  Res([r EXCEPT !.sub = TRUE, !.q = <<>>, !.iend = ended], <<>>, r.q)
HInReq(s, r, n) == IF r.feed /\ ~r.iend THEN Res(r, <<FN(s, "reqn", n)>>, <<>>) ELSE None(r)
HInCancel(s, r) == IF r.iend THEN None(r)
                   ELSE Res([r EXCEPT !.iend = TRUE, !.feed = FALSE], IF r.feed THEN <<F(s, "cancel")>> ELSE <<>>, <<>>)

(************************** asking ******************************************)
\* pv: what it sends; open: responses are expected; feed: it still sends; ph: new, sub, sent
CReq(s, r, k, pv) == LET r1 == [r EXCEPT !.k = k, !.ph = "new", !.pv = pv, !.open = TRUE, !.again = V, !.left = SliceLen] IN
  IF k = "fnf" /\ pv = "big" THEN None([r1 EXCEPT !.ph = "failed", !.open = FALSE])
  ELSE IF k = "fnf" THEN Res([r1 EXCEPT !.ph = "sent", !.open = FALSE], <<[FV(s, "req", V) EXCEPT !.k = k]>>, <<>>) ELSE None(r1)
\* what the subscriber sees (nobody, if the request is only awaited), and whoever waits for the end
Seen(s, r, e, v) == IF r.obs THEN <<E(s, ":s", e, v)>> ELSE <<>>
Told(s, e) == <<E(s, ":n", e, 0)>>
\* a request that does not fit fails when it would be sent
Failed(s, r) == Res([r EXCEPT !.ph = "failed", !.open = FALSE], <<>>, Seen(s, r, "error", 0) \o Told(s, "error"))
Ask(s, r) == IF r.pv = "big" \/ dn # "" THEN Failed(s, r) ELSE Res([r EXCEPT !.ph = "sent", !.keep = TRUE], <<[FV(s, "req", r.again) EXCEPT !.k = "rr"]>>, <<>>)
CDemand(s, r, n) ==
  IF ~r.open THEN None(r)
  ELSE IF r.ph = "sent" THEN Res(r, <<FN(s, "reqn", n)>>, <<>>)
  ELSE IF r.pv = "big" THEN Failed(s, r)
  ELSE IF dn # "" THEN LET x == Failed(s, r) IN [x EXCEPT !.e = @ \o (IF r.k = "rc" /\ r.pv = "create" THEN <<E(s, ":q", "stopped", 0)>> ELSE <<>>)]
  ELSE LET q == <<[FV(s, "req", r.again) EXCEPT !.n = n, !.k = r.k]>>
           r1 == [r EXCEPT !.ph = "sent", !.feed = (r.k = "rc" /\ r.pv \in {"create", "slice"})] IN
       IF r.k = "rc" /\ r.pv = "error" THEN Res(r1, Append(q, FV(s, "error", r.again)), <<>>) ELSE Res(r1, q, <<>>)
Max == 2147483647   \* demand without a limit
CSub(s, r, auto) ==
  LET r1 == [r EXCEPT !.obs = TRUE] IN
  IF r.k = "rr" THEN (IF r.ph = "new" THEN Ask(s, r1) ELSE None([r1 EXCEPT !.sub = TRUE]))
  ELSE IF auto THEN CDemand(s, [r1 EXCEPT !.ph = "sub"], Max) ELSE None([r1 EXCEPT !.ph = "sub"])
\* somebody waits for its end: that is enough for it to be sent
CAwait(s, r) ==
  LET r1 == [r EXCEPT !.aw = TRUE] IN
  IF r.ph # "new" THEN None(r1)
  ELSE IF r.k = "rr" THEN Ask(s, r1) ELSE CDemand(s, [r1 EXCEPT !.ph = "sub"], Max)
StopFeed(s, r) == IF r.feed /\ r.pv = "create" THEN <<E(s, ":q", "cancel", 0)>> ELSE <<>>
CCancel(s, r) == IF ~r.open THEN None(r)
  ELSE Res([r EXCEPT !.open = FALSE, !.feed = FALSE], IF r.ph = "sent" THEN <<F(s, "cancel")>> ELSE <<>>, StopFeed(s, r) \o Told(s, "cancel"))
FeedSlice(s, r, d) ==
  LET n == Min(d, r.left)  first == SliceLen - r.left IN
  Res([r EXCEPT !.left = @ - n, !.feed = (r.left - n > 0)],
      [j \in 1..n |-> FV(s, "next", SV(r.again, first + j))] \o (IF r.left - n = 0 THEN <<F(s, "complete")>> ELSE <<>>), <<>>)
OutFrame(s, r0, f) ==
  LET r == [r0 EXCEPT !.keep = @ /\ f.t \notin {"last", "complete", "error"}] IN
  IF r.ph # "sent" THEN None(r)
  ELSE CASE f.t = "reqn" -> IF ~r.feed THEN None(r)
                            ELSE IF r.pv = "slice" THEN FeedSlice(s, r, f.n)
                            ELSE Res([r EXCEPT !.dem = @ + f.n], <<>>, <<E(s, ":q", "req", f.n)>>)
         [] f.t = "cancel" -> Res([r EXCEPT !.feed = FALSE], <<>>, StopFeed(s, r))
         [] ~r.open -> None(r)
         [] f.t = "next" -> Res([r EXCEPT !.open = (r.k # "rr")], <<>>, Seen(s, r, "next", V) \o (IF r.k = "rr" THEN Told(s, "complete") ELSE <<>>))
         [] f.t = "last" -> Res([r EXCEPT !.open = FALSE], <<>>, Seen(s, r, "next", V) \o (IF r.k = "rr" THEN <<>> ELSE Seen(s, r, "complete", 0)) \o Told(s, "complete"))
         [] f.t = "complete" -> Res([r EXCEPT !.open = FALSE], <<>>, Seen(s, r, IF r.k = "rr" THEN "empty" ELSE "complete", 0) \o Told(s, "complete"))
         [] f.t = "error" -> Res([r EXCEPT !.open = FALSE, !.feed = FALSE], <<>>, StopFeed(s, r) \o Seen(s, r, "error", V) \o Told(s, "error"))
INext(s, r)     == IF r.feed THEN Res([r EXCEPT !.dem = @ - 1], <<FV(s, "next", V)>>, <<>>) ELSE None(r)
IBig(s, r)      == IF r.feed THEN Res([r EXCEPT !.feed = FALSE], <<FV(s, "error", 0)>>, StopFeed(s, r)) ELSE None(r)
IComplete(s, r) == IF r.feed THEN Res([r EXCEPT !.feed = FALSE], <<F(s, "complete")>>, <<>>) ELSE None(r)
IError(s, r)    == IF r.feed THEN Res([r EXCEPT !.feed = FALSE], <<FV(s, "error", V)>>, <<>>) ELSE None(r)

(************************** the end of the connection ***********************)
\* whoever is served is stopped, whoever waits is told, and a channel's input fails
InDown(s, r) ==
  IF r.ph = "none" \/ r.k \in {"rr", "fnf"} \/ ~(r.open \/ r.feed) THEN None(r)
  ELSE LET r1 == [r EXCEPT !.open = FALSE, !.dead = (@ \/ r.ph = "gate")]
           x == IF r.feed THEN Feed(s, r1, E(s, ":i", "error", 0)) ELSE None(r1) IN
       Res(x.r, <<>>, (IF r.open /\ r.ph = "live" /\ r.pv = "create" THEN <<E(s, ":p", "cancel", 0)>> ELSE <<>>) \o x.e)
OutDown(s, r) ==
  IF r.ph # "sent" \/ r.k = "fnf" THEN None(r)
  ELSE LET r1 == [r EXCEPT !.open = FALSE, !.feed = FALSE, !.keep = FALSE] IN
       IF r.open THEN Res(r1, <<>>, StopFeed(s, r) \o Seen(s, r, "error", 0) \o Told(s, "error")) ELSE Res(r1, <<>>, StopFeed(s, r))

(************************** behaviours **************************************)
PFrames == {[t |-> t, n |-> 0] : t \in Acts \cap {"cancel", "next", "complete", "last", "error"}}
           \cup (IF "reqn" \in Acts THEN {[t |-> "reqn", n |-> n] : n \in Ns} ELSE {})
\* streams the endpoint has to keep
HeldIn(r)  == r.k \in {"rs", "rc"} /\ (r.open \/ r.feed)
HeldOut(r) == r.ph = "sent" /\ (IF r.k = "rr" THEN r.keep ELSE r.open \/ r.feed)
Held(i, o) == {s \in Ins : HeldIn(i[s])} \cup {s \in Outs : HeldOut(o[s])}
Log(a, s, x, arg, i, o) == h' = Append(h, [a |-> a, s |-> s, arg |-> arg, o |-> [out |-> IF dn = "" THEN x.o ELSE <<>>, ev |-> x.e, held |-> Held(i, o)]])
\* the end of the connection: every stream at once
RECURSIVE EvsOf(_, _)
EvsOf(X, S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN X[s].e \o EvsOf(X, S \ {s})
Down == Downs # {} /\ dn = "" /\ h # <<>> /\ (Patient => \A s \in Ins : in[s].k \in {"rr", "rs", "rc"} => ~in[s].open)
  /\ \E c \in Downs :
     LET X == [s \in Ins |-> InDown(s, in[s])]  Y == [s \in Outs |-> OutDown(s, out[s])] IN
     /\ dn' = c /\ in' = [s \in Ins |-> X[s].r] /\ out' = [s \in Outs |-> Y[s].r]
     /\ h' = Append(h, [a |-> "down", s |-> "", arg |-> [cause |-> c], o |-> [out |-> <<>>, ev |-> EvsOf(X, Ins) \o EvsOf(Y, Outs), held |-> {}]])
DoIn(a, s, x, arg)  == in' = [in EXCEPT ![s] = x.r] /\ out' = out /\ Log(a, s, x, arg, [in EXCEPT ![s] = x.r], out)
DoOut(a, s, x, arg) == out' = [out EXCEPT ![s] = x.r] /\ in' = in /\ Log(a, s, x, arg, in, [out EXCEPT ![s] = x.r])
AllBad == {""} \cup Bad
InStep(s) == LET r == in[s] IN
  \/ r.ph = "none" /\ dn = "" /\ \E k \in InKinds, n \in Ns, bad \in AllBad, pv \in Pubs :
       /\ (k \in {"rr", "fnf"} \/ bad # "") => n = (CHOOSE m \in Ns : TRUE)
       /\ (k = "fnf" \/ bad # "") => pv = (CHOOSE p \in Pubs : TRUE)
       /\ Gated => pv = (CHOOSE p \in Pubs : TRUE)
       /\ DoIn("preq", s, Request(s, r, k, n, bad, pv), [k |-> k, n |-> n, bad |-> bad, pv |-> pv])
  \/ r.ph = "gate" /\ \E pv \in Pubs : (r.k = "fnf" => pv = CHOOSE p \in Pubs : TRUE) /\ DoIn("return", s, Return(s, r, pv), [pv |-> pv])
  \/ dn = "" /\ \E f \in PFrames : r.ph # "none" /\ DoIn("pframe", s, InFrame(s, r, f), f)
  \/ r.ph = "live" /\ r.pv = "create" /\ (r.open \/ r.again # -1) /\
       \/ (r.open => r.dem > 0) /\ DoIn("hnext", s, HNext(s, r), [x |-> 0])
       \/ "big" \in Acts /\ (r.open => r.dem > 0) /\ DoIn("hbig", s, HBig(s, r), [x |-> 0])
       \/ DoIn("hcomplete", s, HComplete(s, r), [x |-> 0])
       \/ DoIn("herror", s, HError(s, r), [x |-> 0])
  \/ r.ph = "live" /\ r.pv = "mono" /\ (r.open \/ r.again # -1) /\
       \/ "big" \in Acts /\ DoIn("hbig", s, HBig(s, r), [x |-> 0])
       \/ DoIn("hsuccess", s, HSuccess(s, r), [x |-> 0])
       \/ DoIn("herror", s, HError(s, r), [x |-> 0])
  \/ "hin" \in Acts /\ r.ph # "none" /\ r.k = "rc" /\ r.pv # "bad" /\
       \/ ~r.sub /\ DoIn("hinsub", s, HInSub(s, r), [x |-> 0])
       \/ r.sub /\ \E n \in Ns : DoIn("hinreq", s, HInReq(s, r, n), [n |-> n])
       \/ r.sub /\ DoIn("hincancel", s, HInCancel(s, r), [x |-> 0])
OutStep(s) == LET r == out[s] IN
  \/ r.ph = "none" /\ \E k \in OutKinds, pv \in Feeds :
       /\ k # "rc" => pv \in {CHOOSE p \in Feeds : p # "big", "big"}
       /\ DoOut("creq", s, CReq(s, r, k, pv), [k |-> k, pv |-> pv])
  \/ r.ph \in {"new", "sent"} /\ (r.k = "rr" \/ r.ph = "new") /\ ~r.sub /\ (r.k = "rr" => r.ph = "new" \/ r.open)
       /\ r.k # "fnf" /\ \E auto \in (IF r.k # "rr" /\ "auto" \in Acts THEN BOOLEAN ELSE {FALSE}) : DoOut("csub", s, CSub(s, r, auto), [auto |-> auto])
  \/ "await" \in Acts /\ r.ph \in {"new", "sub", "sent"} /\ r.k # "fnf" /\ ~r.aw /\ DoOut("cawait", s, CAwait(s, r), [x |-> 0])
  \/ r.ph \in {"sub", "sent", "failed"} /\ r.k \in {"rs", "rc"} /\
       \/ \E n \in Ns : DoOut("cdemand", s, CDemand(s, r, n), [n |-> n])
       \/ "ccancel" \in Acts /\ DoOut("ccancel", s, CCancel(s, r), [x |-> 0])
  \/ dn = "" /\ \E f \in PFrames : r.ph # "none" /\ DoOut("pframe", s, OutFrame(s, r, f), f)
  \/ r.ph = "sent" /\ r.k = "rc" /\ r.pv = "create" /\
       \/ (r.feed => r.dem > 0) /\ DoOut("inext", s, INext(s, r), [x |-> 0])
       \/ "big" \in Acts /\ (r.feed => r.dem > 0) /\ DoOut("ibig", s, IBig(s, r), [x |-> 0])
       \/ DoOut("icomplete", s, IComplete(s, r), [x |-> 0])
       \/ DoOut("ierror", s, IError(s, r), [x |-> 0])
Unknown == dn = "" /\ "unknown" \in Acts /\ h # <<>> /\ h[Len(h)].a # "punknown" /\ \E f \in PFrames :
  /\ in' = in /\ out' = out
  /\ h' = Append(h, [a |-> "punknown", s |-> "u", arg |-> f, o |-> [out |-> <<>>, ev |-> <<>>, held |-> Held(in, out)]])
Idle(q) == q # <<>> /\ LET x == q[Len(q)] IN x.a \in {"pframe", "punknown"} /\ x.o.out = <<>> /\ x.o.ev = <<>>
Step == Len(h) < D /\ (Down \/ (UNCHANGED dn /\ ((\E s \in Ins : InStep(s)) \/ (\E s \in Outs : OutStep(s)) \/ Unknown)))
        /\ (Calm => ~(Idle(h) /\ Idle(h')))
Finish == Calm /\ Len(h) = D /\ UNCHANGED <<in, out, dn>> /\ h' = Append(h, [a |-> "end", s |-> "", arg |-> [x |-> 0], o |-> [out |-> <<>>, ev |-> <<>>, held |-> Held(in, out)]])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* every explored transition once: histories are not part of the state
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
Shape(r) == [r EXCEPT !.q = [i \in 1..Len(r.q) |-> r.q[i].e], !.again = IF r.ph = "live" /\ ~r.open THEN @ = -1 ELSE FALSE]
View == <<[s \in Ins |-> Shape(in[s])], [s \in Outs |-> Shape(out[s])], h = <<>> \/ h[Len(h)].a = "punknown", dn>>
Small == \A s \in Ins : in[s].dem <= 3 /\ in[s].pend <= 3 /\ Len(in[s].q) <= 2
SmallO == \A s \in Outs : out[s].dem <= 3
Bounded == Small /\ SmallO
Emit == Len(h) = D + (IF Calm THEN 1 ELSE 0) => PrintT("@" \o ToJson(h))

(************************** properties of the specification *****************)
RECURSIVE Outs1(_, _)
Outs1(s, i) == IF i = 0 THEN <<>> ELSE Outs1(s, i - 1) \o SelectSeq(h[i].o.out, LAMBDA f : f.s = s)
Sent(s) == Outs1(s, Len(h))
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
Ends == {"last", "complete", "error"}
\* P01: at most one end per answered request, nothing after it
AnsweredOnce == \A s \in Ins : LET q == SelectSeq(Sent(s), LAMBDA f : f.t \notin {"reqn", "cancel"}) IN
  /\ Count(q, LAMBDA f : f.t \in Ends) <= 1
  /\ \A i \in 1..Len(q) : q[i].t \in Ends => i = Len(q)
\* P01/P04: a request is answered unless it is still open, was cancelled, or wants no answer
Answered == \A s \in Ins : (in[s].ph = "live" /\ ~in[s].open /\ in[s].k # "fnf") =>
  \/ Count(Sent(s), LAMBDA f : f.t \in Ends) = 1
  \/ dn # ""
  \/ \E i \in 1..Len(h) : h[i].s = s /\ h[i].a = "pframe" /\ h[i].arg.t = "cancel"
\* P02/P03: the request goes out at most once and before anything else of its stream; one cancel at most and nothing but it after it
Requested == \A s \in Outs : LET q == Sent(s) IN
  /\ Count(q, LAMBDA f : f.t = "req") <= 1 /\ Count(q, LAMBDA f : f.t = "cancel") <= 1
  /\ \A i \in 1..Len(q) : (q[i].t = "req" => i = 1) /\ (q[i].t = "cancel" => i = Len(q))
  /\ q # <<>> => q[1].t = "req"
RECURSIVE SumDem(_, _), SumGot(_, _)
SumDem(s, i) == IF i = 0 THEN 0 ELSE SumDem(s, i - 1) +
  (IF h[i].s = s /\ h[i].a = "preq" THEN h[i].arg.n ELSE IF h[i].s = s /\ h[i].a = "pframe" /\ h[i].arg.t = "reqn" THEN h[i].arg.n ELSE 0)
SumGot(s, i) == IF i = 0 THEN 0 ELSE SumGot(s, i - 1) + Count(h[i].o.out, LAMBDA f : f.s = s /\ f.t = "next")
\* P03: no more values than were asked for
Demanded == \A s \in Ins : in[s].k \in {"rs", "rc"} => SumGot(s, Len(h)) <= SumDem(s, Len(h))
\* P07: once the connection has ended nobody waits for a response: no request that was sent is open, and each that
\* was open has been told exactly once
RECURSIVE Evs1(_, _)
Evs1(w, i) == IF i = 0 THEN <<>> ELSE Evs1(w, i - 1) \o SelectSeq(h[i].o.ev, LAMBDA e : e.w = w)
NobodyWaits == dn # "" => /\ Held(in, out) = {}
                          /\ \A s \in Outs : out[s].ph \in {"sent", "failed"} /\ out[s].k # "fnf" => Len(Evs1(s \o ":n", Len(h))) = 1
                          /\ \A s \in Ins : in[s].k \in {"rs", "rc"} => ~in[s].open
=============================================================================
