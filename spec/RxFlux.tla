------------------------------- MODULE RxFlux -------------------------------
(* Multi-value publishers (package rx/flux) and the adapters around them.       *)
(*                                                                              *)
(* The state is one publisher with one subscription: what its producer did,     *)
(* what demand is outstanding, who has been told what.  One step of Next is one *)
(* call into the public API (by the producer, the subscriber or a completion    *)
(* listener) run to quiescence, including everything callbacks do from inside   *)
(* (the reactions R of the behaviour).  The operators Push, Complete, Fail,     *)
(* Request, Cancel ... are the critical sections of the code; they call each    *)
(* other exactly where the code does.                                           *)
(*   Mode "async": demand reaches the producer on its own goroutine (host)      *)
(*   Mode "sync" : demand is passed on inside the call (modules, wasm)          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Mode,     \* "async" or "sync"
          Srcs,     \* which publishers
          Maps,     \* subset of BOOLEAN: with / without a transformation
          AskSet,   \* demand: [k |-> "none"] unlimited, [k |-> "optout"], or a callback
                    \* with its answers [k |-> "ask", l |-> <<...>>] (0 none, -1 cancel)
          ReactSet, \* sets of reactions from inside callbacks
          Acts,     \* enabled environment actions
          SliceLens,\* lengths of slice-backed publishers
          Amounts,  \* amounts of explicit demand
          MaxVals,  \* values the producer pushes itself
          MaxLst,   \* completion listeners registered
          D         \* length of a behaviour

Unlimited == 1000000  \* stands for rx.RequestMax (the harness translates)
Bad == 9             \* the value the transformation fails on
OutVal(S, v) == IF S.map THEN v + 100 ELSE v
\* slice contents for a publisher: values 1..len, with the bad value in the middle if mapped
VARIABLES S, cfg, h
vars == <<S, cfg, h>>

----------------------------------------------------------------------------
(* logs: slog what the subscriber sees, plog what the producer sees (demand,   *)
(* cancel), llog what each completion listener is told                         *)
SLog(s, e) == [s EXCEPT !.slog = Append(@, e)]
PLog(s, e) == [s EXCEPT !.plog = Append(@, e)]
Open(s) == s.st = "open"

RECURSIVE Push(_,_), Complete(_), Fail(_,_), Fin(_), Drain(_), Request(_,_), Produce(_,_), Slice(_,_),
          Cancel(_), Ask(_), React(_,_,_), Do(_,_), Notify(_,_), DrainList(_), Tell(_,_,_)

(* a callback of kind ev runs for the k-th time: do what the behaviour says *)
React(s, ev, k) ==
  LET rs == {r \in s.react : r.on = ev /\ r.k = k} IN
  IF rs = {} THEN s
  ELSE LET r == CHOOSE r \in rs : TRUE IN Do([s EXCEPT !.react = @ \ {r}], r)

Do(s, r) ==
  CASE r.do = "request"  -> Request(s, r.n)
    [] r.do = "cancel"   -> Cancel(s)
    [] r.do = "complete" -> IF s.src = "proc" THEN Complete(s) ELSE s
    [] r.do = "error"    -> IF s.src = "proc" THEN Fail(s, "boom") ELSE s
    [] r.do = "push"     -> IF s.src = "proc" THEN Push(s, 5) ELSE s
    [] r.do = "notify"   -> Notify(s, 100 + r.n)
    [] OTHER -> s

(* the producer hands over a value *)
Push(s, v) ==
  IF ~Open(s) THEN s
  ELSE LET s1 == [s EXCEPT !.n = @ - 1, !.cnt = @ + 1] IN
       IF s.map /\ v = Bad THEN
          \* the transformation fails: the source is stopped, the subscriber gets the error
          LET s2 == [s1 EXCEPT !.st = "ended", !.out = "error", !.err = "bad"]
              s3 == IF s.att THEN PLog(s2, -1) ELSE s2
              s4 == React(SLog(s3, <<"error", "bad">>), "error", 1)
          IN Fin(s4)
       ELSE LET s2 == React(SLog(s1, <<"next", OutVal(s, v)>>), "next", s1.cnt)
            IN IF s2.n = 0 /\ ~s2.asked THEN Ask([s2 EXCEPT !.asked = TRUE]) ELSE s2

Complete(s) ==
  IF ~Open(s) THEN s
  ELSE Fin(React(SLog([s EXCEPT !.st = "ended", !.out = "complete"], <<"complete">>), "complete", 1))

Fail(s, e) ==
  IF ~Open(s) THEN s
  ELSE Fin(React(SLog([s EXCEPT !.st = "ended", !.out = "error", !.err = e], <<"error", e>>), "error", 1))

Cancel(s) ==
  IF ~Open(s) THEN s
  ELSE LET s1 == [s EXCEPT !.st = "ended", !.out = "cancel"] IN
       Fin(IF s.att THEN PLog(s1, -1) ELSE s1)

(* the outcome is told to the finally-callback, then to every listener, once *)
Fin(s) == DrainList(React([SLog(s, <<"finally", s.out>>) EXCEPT !.blk = IF @ = "waiting" THEN "ret" ELSE @], "finally", 1))
DrainList(s) ==
  IF s.lst = <<>> THEN [s EXCEPT !.drained = TRUE]
  ELSE DrainList(Tell([s EXCEPT !.lst = Tail(@)], Head(s.lst), s.out))

Tell(s, id, sig) == React([s EXCEPT !.llog = Append(@, <<id, sig>>)], "notify", id)
Notify(s, id) ==
  IF s.src = "err" THEN Tell(s, id, "error")
  ELSE IF s.drained THEN Tell(s, id, s.out)
  ELSE [s EXCEPT !.lst = Append(@, id)]

Request(s, n) ==
  IF ~Open(s) THEN s
  ELSE LET s1 == [s EXCEPT !.n = @ + n, !.asked = FALSE, !.reqs = @ + 1] IN
       IF ~s.att THEN s1
       ELSE IF Mode = "sync" THEN Produce(s1, n) ELSE [s1 EXCEPT !.q = Append(@, n)]

(* demand arrives at the producer *)
Produce(s, n) ==
  IF ~Open(s) THEN s
  ELSE CASE s.src = "proc" -> PLog(s, n)
         [] s.src \in {"slice", "batch"} -> Slice(s, n)
         [] s.src = "m2f" ->
              IF s.mstart THEN s
              ELSE LET s1 == [s EXCEPT !.mstart = TRUE] IN
                   IF s.minner = "none" THEN s1
                   ELSE IF s.minner = "v" THEN Complete(Push(s1, 7))
                   ELSE IF s.minner = "b" THEN Complete(Push(s1, Bad)) ELSE Fail(s1, "boom")
         [] OTHER -> s

Slice(s, i) ==
  IF i = 0 \/ s.vals = <<>> THEN (IF s.vals = <<>> THEN Complete(s) ELSE s)
  ELSE Slice(Push([s EXCEPT !.vals = Tail(@)], Head(s.vals)), i - 1)

(* the subscriber is asked for demand (or has unlimited demand, or opted out) *)
Ask(s) ==
  IF ~Open(s) \/ s.asks.k = "optout" THEN s
  ELSE IF s.asks.k = "none" THEN Request(s, Unlimited)
  ELSE LET s1 == [SLog(s, <<"ask">>) EXCEPT !.asks.l = IF @ = <<>> THEN <<>> ELSE Tail(@)]
           k == IF s.asks.l = <<>> THEN 0 ELSE Head(s.asks.l) IN
       IF k > 0 THEN Request(s1, k) ELSE IF k < 0 THEN Cancel(s1) ELSE s1

(* asynchronous demand not yet passed on *)
Drain(s) == IF s.q = <<>> THEN s ELSE Drain(Produce([s EXCEPT !.q = Tail(@)], Head(s.q)))
Quiesce(s) == Drain(s)

Subscribe(s) ==
  LET s0 == [s EXCEPT !.st = "open", !.sub = TRUE, !.att = @ \/ s.src \in {"slice", "batch", "m2f"}] IN
  CASE s.src = "err"  -> \* constant error publisher
         LET e == [s0 EXCEPT !.st = "ended", !.out = "error", !.err = "boom"] IN
         Fin(React(SLog(e, <<"error", "boom">>), "error", 1))
    [] s.src = "sync" -> \* a source that emits from inside Subscribe and never takes demand
         Ask(Complete(Push(Push(s0, 1), 2)))
    [] s.src = "synerr" ->
         Ask(Fail(Push(s0, 1), "boom"))
    [] OTHER -> Ask(s0)

----------------------------------------------------------------------------
Vals(len, m) == [k \in 1..len |-> IF m /\ k = 2 THEN Bad ELSE k]

InitS(c) == [src |-> c.src, map |-> c.map, asks |-> c.asks, react |-> c.react,
             vals |-> Vals(c.len, c.map /\ c.bad), st |-> "idle", out |-> "none", err |-> "",
             sub |-> FALSE, att |-> FALSE, n |-> 0, cnt |-> 0, q |-> <<>>,
             slog |-> <<>>, plog |-> <<>>, llog |-> <<>>, lst |-> <<>>, drained |-> FALSE,
             blk |-> "none", mstart |-> FALSE, minner |-> "none", pushed |-> 0, lcount |-> 0, asked |-> FALSE, reqs |-> 0]

Cfgs == [src : Srcs, map : Maps, bad : BOOLEAN, asks : AskSet, react : ReactSet, len : SliceLens]
Init == /\ cfg \in {c \in Cfgs : (c.src \notin {"slice", "batch"} => c.len = CHOOSE l \in SliceLens : TRUE)
                              /\ (~c.map \/ c.src \notin {"slice", "batch"} => c.bad = FALSE)}
        /\ S = InitS(cfg)
        /\ h = <<>>

\* what the environment observes in one step: the new entries of every log
SortAmounts(q) == SortSeq(q, <)
New(s, t) == [s |-> SubSeq(t.slog, Len(s.slog) + 1, Len(t.slog)),
              p |-> SortAmounts(SubSeq(t.plog, Len(s.plog) + 1, Len(t.plog))),
              l |-> SubSeq(t.llog, Len(s.llog) + 1, Len(t.llog)),
              b |-> IF t.blk = "ret" THEN <<"ret", t.err>> ELSE <<t.blk>>]

Step(act, t) == LET u == Quiesce(t) IN
                /\ S' = u
                /\ h' = Append(h, act @@ [o |-> New(S, u)])
                /\ UNCHANGED cfg
On(a) == a \in Acts
IsProc == S.src = "proc"

Next ==
  /\ Len(h) < D
  /\ \/ On("subscribe") /\ ~S.sub /\ Step([a |-> "subscribe"], Subscribe(S))
     \/ On("block") /\ S.blk = "none" /\ ~S.sub /\ Step([a |-> "block"], Subscribe([S EXCEPT !.blk = "waiting"]))
     \/ On("block") /\ S.blk = "none" /\ S.sub /\ S.st = "ended" /\ S.src # "err"
          /\ Step([a |-> "block"], [S EXCEPT !.blk = "ret"])
     \/ On("attach") /\ IsProc /\ ~S.att /\
          Step([a |-> "attach"],
               IF S.st = "ended" THEN S
               ELSE LET s1 == [S EXCEPT !.att = TRUE] IN
                    IF S.st = "open" /\ S.n > 0
                    THEN (IF Mode = "sync" THEN Produce(s1, S.n) ELSE [s1 EXCEPT !.q = Append(@, S.n)])
                    ELSE s1)
     \/ On("push") /\ IsProc /\ S.sub /\ S.pushed < MaxVals /\ \E v \in {S.pushed + 1} \cup (IF S.map THEN {Bad} ELSE {}) :
          Step([a |-> "push", v |-> v], Push([S EXCEPT !.pushed = @ + 1], v))
     \/ On("complete") /\ IsProc /\ S.sub /\ Step([a |-> "complete"], Complete(S))
     \/ On("error") /\ IsProc /\ S.sub /\ Step([a |-> "error"], Fail(S, "boom"))
     \/ On("request") /\ S.sub /\ S.src # "err" /\ \E n \in Amounts : Step([a |-> "request", n |-> n], Request(S, n))
     \/ On("cancel") /\ S.sub /\ S.src # "err" /\ Step([a |-> "cancel"], Cancel(S))
     \/ On("notify") /\ S.lcount < MaxLst /\
          Step([a |-> "notify", id |-> S.lcount + 1], Notify([S EXCEPT !.lcount = @ + 1], S.lcount + 1))
     \/ On("inner") /\ S.src = "m2f" /\ S.minner = "none" /\ \E r \in {"v", "e"} \cup (IF S.map THEN {"b"} ELSE {}) :
          LET s1 == [S EXCEPT !.minner = r] IN
          Step([a |-> "inner", r |-> r],
               IF ~S.mstart THEN s1
               ELSE IF r = "v" THEN Complete(Push(s1, 7)) ELSE IF r = "b" THEN Complete(Push(s1, Bad)) ELSE Fail(s1, "boom"))

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* R01 *)
Kinds(s) == [k \in 1..Len(s.slog) |-> s.slog[k][1]]
Signals(s) == SelectSeq(s.slog, LAMBDA e : e[1] \in {"next", "complete", "error", "finally"})
Terminals(s) == SelectSeq(s.slog, LAMBDA e : e[1] \in {"complete", "error"})
Grammar == /\ Len(Terminals(S)) <= 1
           /\ \A i, j \in 1..Len(S.slog) :
                (i < j /\ S.slog[i][1] \in {"complete", "error", "finally"}) => S.slog[j][1] \notin {"next", "ask"}
FinallyOnce == Cardinality({i \in 1..Len(S.slog) : S.slog[i][1] = "finally"}) = IF S.st = "ended" THEN 1 ELSE 0
FinallyRight == \A i \in 1..Len(S.slog) : S.slog[i][1] = "finally" =>
                  S.slog[i][2] = IF Terminals(S) = <<>> THEN "cancel"
                                 ELSE IF Terminals(S)[1][1] = "complete" THEN "complete" ELSE "error"
ListenersOnce == \A i, j \in 1..Len(S.llog) : i # j => S.llog[i][1] # S.llog[j][1]
ListenersAll == (S.st = "ended" /\ S.src # "err") => S.lst = <<>>
ListenersRight == \A i \in 1..Len(S.llog) : S.llog[i][2] = IF S.src = "err" THEN "error" ELSE S.out
(* R02 *)
Requested == FoldLeft(LAMBDA a, b : a + b, 0, SelectSeq(S.plog, LAMBDA x : x > 0))
NextCount == Cardinality({i \in 1..Len(S.slog) : S.slog[i][1] = "next"})
InOrder == S.src \in {"slice", "batch"} =>
             LET ns == SelectSeq(S.slog, LAMBDA e : e[1] = "next") IN
             \A i \in 1..Len(ns) : ns[i][2] = OutVal(S, i)
DemandRespected == S.src \in {"slice", "batch", "m2f"} => S.n >= 0
DemandDelivered == (IsProc /\ S.att /\ S.st = "open") => Requested >= S.n
\* asked once at first and at most once again per request
AskExact == Cardinality({i \in 1..Len(S.slog) : S.slog[i][1] = "ask"}) <= 1 + S.reqs
OptOut == (cfg.asks.k = "optout" /\ IsProc /\ ~("request" \in Acts) /\ cfg.react = {}) => Requested = 0
(* R03 *)
BlockReturns == (S.blk = "waiting") => S.st # "ended"

Emit == Len(h) = D => PrintT("@" \o ToJson(<<[a |-> "cfg", src |-> cfg.src, map |-> cfg.map,
                                     asks |-> cfg.asks, react |-> SetToSeq(cfg.react), vals |-> Vals(cfg.len, cfg.map /\ cfg.bad)]>> \o h))
=============================================================================
