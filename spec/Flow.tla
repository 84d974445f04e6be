-------------------------------- MODULE Flow --------------------------------
(* A flow (package rx/flow): a list of steps, each of which may hand back      *)
(* things to await; the next step starts when all of them have finished.  The  *)
(* program (the steps and the awaited items) is built first, one piece per     *)
(* transition, then the flow is subscribed and the items finish in any order   *)
(* and at any moment, also from inside a step.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pubs,      \* "mono" "flux": what the flow is turned into
          Items,     \* kinds of awaited items, see Done
          Ends,      \* step kinds: "run" "fail" "ferror" "end" "final"
          MaxItems, MaxSteps, MaxAw, MaxEv,
          Inside     \* whether steps may finish items themselves

VARIABLES ph, pub, items, steps, S, h
vars == <<ph, pub, items, steps, S, h>>

\* "proc" finishes when told; "lazy" is told too but runs only once it was asked to;
\* "now" finishes inside Async; "just"/"err" have always finished
Told == {"proc", "fproc", "lazy"}

Log(s, e) == [s EXCEPT !.log = Append(@, e)]

\* the awaited items of a step that has not finished yet
Left(s, aw) == {aw[k] : k \in {k \in 1..Len(aw) : aw[k] \notin s.done}}

EndMono(s, e, sig) == IF s.out # "none" THEN s
                      ELSE Log(Log([s EXCEPT !.out = sig, !.over = TRUE], e), <<"finally", sig>>)

RECURSIVE Run(_), Finish(_,_)
\* item i finishes; a flow that waits for it may go on
Finish(s, i) ==
  IF i \in s.done THEN s
  ELSE LET s1 == [s EXCEPT !.done = @ \cup {i}] IN
       IF s.waiting /\ Left(s1, s1.aw) = {} THEN Run([s1 EXCEPT !.waiting = FALSE]) ELSE s1

Run(s) ==
  IF s.next > Len(steps) \/ s.over THEN s
  ELSE LET st == steps[s.next]
           s1 == Log([s EXCEPT !.next = @ + 1], <<"step", s.next>>)
           s2 == IF st.fin # 0 THEN Finish(s1, st.fin) ELSE s1
           s3 == IF st.val /\ s2.out = "none" THEN Log(s2, <<"next", s.next>>) ELSE s2
       IN CASE st.k \in {"fail", "ferror"} -> EndMono([s3 EXCEPT !.over = TRUE], <<"error", "boom">>, "error")
            [] OTHER ->
               LET s4 == CASE st.k = "end"   -> [s3 EXCEPT !.over = TRUE]
                           [] st.k = "final" -> IF pub = "mono" THEN EndMono(s3, <<"success", s.next>>, "complete")
                                                ELSE EndMono(s3, <<"complete">>, "complete")
                           [] OTHER -> s3
                   \* everything to await is set going
                   asked == {st.aw[k] : k \in 1..Len(st.aw)}
                   s5 == [s4 EXCEPT !.asked = @ \cup asked,
                                    !.done = @ \cup {i \in asked : items[i] = "now"}]
               IN IF s5.over THEN s5
                  ELSE IF Left(s5, st.aw) = {} THEN Run(s5)
                  ELSE [s5 EXCEPT !.waiting = TRUE, !.aw = st.aw]

Init == /\ ph = "items" /\ pub \in Pubs /\ items = <<>> /\ steps = <<>> /\ h = <<>>
        /\ S = [next |-> 1, done |-> {}, asked |-> {}, waiting |-> FALSE, aw |-> <<>>, over |-> FALSE, out |-> "none", log |-> <<>>]

\* building the program
AddItem == /\ ph = "items" /\ Len(items) < MaxItems
           /\ \E k \in Items : items' = Append(items, k)
           /\ UNCHANGED <<ph, pub, steps, S, h>>
ToSteps == ph = "items" /\ ph' = "steps" /\ UNCHANGED <<pub, items, steps, S, h>>
AddStep == /\ ph = "steps" /\ Len(steps) < MaxSteps
           /\ \E k \in Ends, f \in {0} \cup (IF Inside THEN {i \in 1..Len(items) : items[i] \in {"proc", "fproc"}} ELSE {}),
                 v \in (IF pub = "flux" THEN {TRUE, FALSE} ELSE {FALSE}) :
                steps' = Append(steps, [k |-> k, aw |-> <<>>, fin |-> f, val |-> v])
           /\ UNCHANGED <<ph, pub, items, S, h>>
AddAwait == /\ ph = "steps" /\ Len(steps) > 0 /\ steps[Len(steps)].k \in {"run", "final"} /\ Len(steps[Len(steps)].aw) < MaxAw
            /\ \E i \in 1..Len(items) : steps' = [steps EXCEPT ![Len(steps)].aw = Append(@, i)]
            /\ UNCHANGED <<ph, pub, items, S, h>>
ToRun == /\ ph = "steps" /\ Len(steps) > 0 /\ ph' = "run"
         /\ S' = [S EXCEPT !.done = {i \in 1..Len(items) : items[i] \in {"just", "err"}}]
         /\ UNCHANGED <<pub, items, steps, h>>

Obs(s, t) == [log |-> SubSeq(t.log, Len(s.log) + 1, Len(t.log)), asked |-> IF t.over THEN <<>> ELSE [i \in 1..Len(items) |-> IF i \in t.asked THEN 1 ELSE 0]]   \* once it is over it does not matter
Do(act, t) == S' = t /\ h' = Append(h, act @@ [o |-> Obs(S, t)]) /\ UNCHANGED <<ph, pub, items, steps>>
Started == \E k \in 1..Len(h) : h[k].a = "subscribe"
Subscribe == ph = "run" /\ ~Started /\ Do([a |-> "subscribe"], Run(S))
FinishOne == /\ ph = "run"
             /\ \E i \in 1..Len(items) :
                  /\ items[i] \in Told /\ i \notin S.done
                  /\ items[i] = "lazy" => i \in S.asked
                  /\ \E how \in (IF items[i] = "lazy" THEN {"complete"} ELSE {"complete", "error"}) :
                       Do([a |-> "finish", i |-> i, how |-> how], Finish(S, i))

Next == \/ AddItem \/ ToSteps \/ AddStep \/ AddAwait \/ ToRun
        \/ Len(h) < MaxEv /\ (Subscribe \/ FinishOne)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
StepNos == SelectSeq(S.log, LAMBDA e : e[1] = "step")
InOrder == \A k \in 1..Len(StepNos) : StepNos[k][2] = k
\* a step starts only when what the step before it awaited has finished, and a flow stalls for no other reason
NoStall == (ph = "run" /\ Started /\ ~S.over /\ S.next <= Len(steps)) => Left(S, steps[S.next - 1].aw) # {}
Waits == (Started /\ S.next > 2) => \A k \in 1..(S.next - 2) : Left(S, steps[k].aw) = {}
OneOutcome == Len(SelectSeq(S.log, LAMBDA e : e[1] = "finally")) <= 1
EndIsEnd == \A k \in 1..Len(S.log) : S.log[k][1] = "finally" => \A j \in (k + 1)..Len(S.log) : S.log[j][1] # "step"
Emit == (ph = "run" /\ (Len(h) = MaxEv \/ ~ENABLED Next)) =>
          PrintT("@" \o ToJson(<<[a |-> "cfg", pub |-> pub, items |-> items, steps |-> steps]>> \o h))
=============================================================================
