------------------------------- MODULE RxMono -------------------------------
(* Single-value publishers (package rx/mono): constant, created, processor,    *)
(* mapped, and single values taken from a flux (FluxToMono, FluxToVoid).       *)
(* One step is one call into the public API run to quiescence; operators are    *)
(* the critical sections of the code and call each other where the code does.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Srcs,     \* "just" "err" "proc" "create" "sync" "synerr" "f2m" "f2v"
          Maps, ReactSet, Acts, MaxLst, D

Bad == 9
Const == {"just", "err"}
VARIABLES S, cfg, h
vars == <<S, cfg, h>>

SLog(s, e) == [s EXCEPT !.slog = Append(@, e)]
Open(s) == s.st = "open"

RECURSIVE Success(_,_), Fail(_,_), Cancel(_), Fin(_,_), DrainList(_), Tell(_,_,_), React(_,_,_), Do(_,_), Notify(_,_)

React(s, ev, k) ==
  LET rs == {r \in s.react : r.on = ev /\ r.k = k} IN
  IF rs = {} THEN s
  ELSE LET r == CHOOSE r \in rs : TRUE IN Do([s EXCEPT !.react = @ \ {r}], r)
Do(s, r) ==
  CASE r.do = "success" -> IF s.src = "proc" THEN Success(s, 5) ELSE s
    [] r.do = "error"   -> IF s.src = "proc" THEN Fail(s, "boom") ELSE s
    [] r.do = "notify"  -> Notify(s, 100 + r.n)
    [] OTHER -> s

\* the source of a mapped mono ended with a value the transformation accepts or refuses
Success(s, v) ==
  IF ~Open(s) THEN s
  ELSE LET s1 == [s EXCEPT !.st = "ended"] IN
       IF s.map /\ v = Bad
       THEN LET s2 == [s1 EXCEPT !.out = "error", !.err = "bad"] IN
            Fin(IF s.quiet THEN s2 ELSE React(SLog(s2, <<"error", "bad">>), "error", 1), "error")
       ELSE LET w == IF s.map THEN v + 100 ELSE v
                s2 == [s1 EXCEPT !.out = "complete", !.val = w] IN
            Fin(IF s.quiet THEN s2 ELSE React(SLog(s2, <<"success", w>>), "success", 1), "complete")

Fail(s, e) ==
  IF ~Open(s) THEN s
  ELSE LET s1 == [s EXCEPT !.st = "ended", !.out = "error", !.err = e] IN
       Fin(IF s.quiet THEN s1 ELSE React(SLog(s1, <<"error", e>>), "error", 1), "error")

Cancel(s) == IF ~Open(s) THEN s ELSE Fin([s EXCEPT !.st = "ended", !.out = "cancel"], "cancel")

Fin(s, sig) ==
  LET s1 == [s EXCEPT !.blk = IF @ = "waiting" THEN "ret" ELSE @]
      s2 == IF s.quiet THEN s1 ELSE React(SLog(s1, <<"finally", sig>>), "finally", 1)
  IN DrainList(s2)
DrainList(s) ==
  IF s.lst = <<>> THEN [s EXCEPT !.drained = TRUE]
  ELSE DrainList(Tell([s EXCEPT !.lst = Tail(@)], Head(s.lst), s.out))

Tell(s, id, sig) == React([s EXCEPT !.llog = Append(@, <<id, sig>>)], "notify", id)
Notify(s, id) ==
  IF s.src = "just" /\ ~s.map THEN Tell(s, id, "complete")
  ELSE IF s.src = "err" THEN Tell(s, id, "error")
  ELSE IF s.src = "just" \/ s.drained THEN Tell(s, id, s.out)
  ELSE [s EXCEPT !.lst = Append(@, id)]

\* quiet: the subscriber is a blocked caller and has no callbacks
Subscribe(s, quiet) ==
  LET s0 == [s EXCEPT !.st = "open", !.sub = TRUE, !.quiet = quiet] IN
  CASE s.src = "just"   -> Success(s0, cfg.jv)
    [] s.src = "err"    -> Fail(s0, "boom")
    [] s.src = "sync"   -> Success(s0, cfg.jv)
    [] s.src = "synerr" -> Fail(s0, "boom")
    [] s.src = "proc"   -> IF s.early = "none" THEN s0
                           ELSE IF s.early = "e" THEN Fail(s0, "boom") ELSE Success(s0, s.earlyv)
    [] OTHER -> s0

PSuccess(s, v) == IF s.sub THEN Success(s, v)
                  ELSE IF s.early = "none" THEN [s EXCEPT !.early = "v", !.earlyv = v] ELSE s
PError(s) == IF s.sub THEN Fail(s, "boom") ELSE IF s.early = "none" THEN [s EXCEPT !.early = "e"] ELSE s

\* the inner flux of FluxToMono / FluxToVoid (0 stands for the void value)
INext(s, v) == IF s.iend THEN s ELSE IF s.src = "f2m" THEN Success(s, v) ELSE s
IComplete(s) == IF s.iend THEN s
                ELSE LET s1 == [s EXCEPT !.iend = TRUE] IN
                     IF s.src = "f2v" THEN Success(s1, 0) ELSE Fail(s1, "completed without a value")
IError(s) == IF s.iend THEN s ELSE Fail([s EXCEPT !.iend = TRUE], "boom")

InitS(c) == [src |-> c.src, map |-> c.map, react |-> c.react, st |-> "idle", sub |-> FALSE, quiet |-> FALSE,
             val |-> 0, err |-> "", out |-> "none", slog |-> <<>>, llog |-> <<>>, lst |-> <<>>, drained |-> FALSE,
             early |-> "none", earlyv |-> 0, blk |-> "none", iend |-> FALSE, lcount |-> 0]

Init == /\ cfg \in [src : Srcs, map : Maps, jv : {1, Bad}, react : ReactSet]
        /\ (cfg.jv = Bad => cfg.map /\ cfg.src \in {"just", "sync"})
        /\ S = InitS(cfg) /\ h = <<>>

New(s, t) == [s |-> SubSeq(t.slog, Len(s.slog) + 1, Len(t.slog)),
              l |-> SubSeq(t.llog, Len(s.llog) + 1, Len(t.llog)),
              b |-> IF t.blk = "ret" THEN <<"ret", t.val, t.err>> ELSE <<t.blk>>,
              g |-> IF t.out \in {"complete", "error"} /\ (t.src \notin Const \/ t.map) THEN <<t.val, t.err>> ELSE <<>>]
Step(act, t) == S' = t /\ h' = Append(h, act @@ [o |-> New(S, t)]) /\ UNCHANGED cfg
On(a) == a \in Acts
Inner == S.src \in {"f2m", "f2v"} /\ S.sub

Next ==
  /\ Len(h) < D
  /\ \/ On("subscribe") /\ ~S.sub /\ Step([a |-> "subscribe"], Subscribe(S, FALSE))
     \/ On("block") /\ S.blk = "none" /\ ~S.sub /\ Step([a |-> "block"], Subscribe([S EXCEPT !.blk = "waiting"], TRUE))
     \/ On("block") /\ S.blk = "none" /\ S.out \in {"complete", "error"} /\ Step([a |-> "block"], [S EXCEPT !.blk = "ret"])
     \/ On("success") /\ S.src = "proc" /\ \E v \in {1} \cup (IF S.map THEN {Bad} ELSE {2}) :
          Step([a |-> "success", v |-> v], PSuccess(S, v))
     \/ On("error") /\ S.src = "proc" /\ Step([a |-> "error"], PError(S))
     \/ On("sinksuccess") /\ S.src = "create" /\ S.sub /\ \E v \in {1} \cup (IF S.map THEN {Bad} ELSE {2}) :
          Step([a |-> "sinksuccess", v |-> v], Success(S, v))
     \/ On("sinkerror") /\ S.src = "create" /\ S.sub /\ Step([a |-> "sinkerror"], Fail(S, "boom"))
     \/ On("cancel") /\ S.src = "create" /\ S.sub /\ Step([a |-> "cancel"], Cancel(S))
     \/ On("inext") /\ Inner /\ \E v \in {1} \cup (IF S.map THEN {Bad} ELSE {}) : Step([a |-> "inext", v |-> v], INext(S, v))
     \/ On("icomplete") /\ Inner /\ Step([a |-> "icomplete"], IComplete(S))
     \/ On("ierror") /\ Inner /\ Step([a |-> "ierror"], IError(S))
     \* a mapped constant has no outcome before it is subscribed
     \/ On("notify") /\ S.lcount < MaxLst /\ (S.src \in Const /\ S.map => S.sub) /\
          Step([a |-> "notify", id |-> S.lcount + 1], Notify([S EXCEPT !.lcount = @ + 1], S.lcount + 1))

Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Count(k) == Cardinality({i \in 1..Len(S.slog) : S.slog[i][1] = k})
Grammar == /\ Count("success") + Count("error") <= 1
           /\ Count("finally") <= 1
           /\ \A i, j \in 1..Len(S.slog) : (i < j /\ S.slog[i][1] = "finally") => FALSE
OutcomeTold == (S.st = "ended" /\ ~S.quiet) =>
               /\ Count("finally") = 1
               /\ Count("success") = (IF S.out = "complete" THEN 1 ELSE 0)
               /\ Count("error") = (IF S.out = "error" THEN 1 ELSE 0)
               /\ \E i \in 1..Len(S.slog) : S.slog[i] = <<"finally", S.out>>
ListenersOnce == \A i, j \in 1..Len(S.llog) : i # j => S.llog[i][1] # S.llog[j][1]
ListenersAll == (S.st = "ended") => S.lst = <<>>
ListenersRight == \A i \in 1..Len(S.llog) : S.llog[i][2] = IF S.src = "just" /\ ~S.map THEN "complete"
                                                          ELSE IF S.src = "err" THEN "error" ELSE S.out
BlockReturns == (S.blk = "waiting") => S.st # "ended"
BlockRight == (S.blk = "ret") => S.st = "ended" /\ ((S.err # "") <=> (S.out = "error"))
Emit == Len(h) = D \/ ~ENABLED Next => PrintT("@" \o ToJson(<<[a |-> "cfg", src |-> cfg.src, map |-> cfg.map, jv |-> cfg.jv,
                                               react |-> SetToSeq(cfg.react)]>> \o h))
=============================================================================
