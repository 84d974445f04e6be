------------------------------ MODULE LiveTrace ------------------------------
(* Linearizability of recorded concurrent executions of the table of live      *)
(* instances; handles are renumbered by the harness in the order they appear.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES t, i, reg, pend
Traces == JsonDeserialize("traces.json")
L == INSTANCE LiveInstances WITH MaxPuts <- 0, D <- 0, puts <- 0, h <- <<>>
T == Traces[t]
E == T[i]
None == [op |-> "none"]
Threads(tr) == {tr[k].th : k \in 1..Len(tr)}
Init == t \in 1..Len(Traces) /\ i = 1 /\ reg = [x \in {} |-> 0] /\ pend = [th \in Threads(Traces[t]) |-> None]
\* a Put's handle is recorded with its call (looked up from its return), so that it must be new when it takes effect
Call == /\ E.k = "call"
        /\ pend' = [pend EXCEPT ![E.th] = [op |-> E.op, hd |-> E.hd, obj |-> E.obj, done |-> FALSE, res |-> 0]]
        /\ i' = i + 1 /\ UNCHANGED <<t, reg>>
Ret == /\ E.k = "ret" /\ pend[E.th].op # "none" /\ pend[E.th].done /\ pend[E.th].res = E.res
       /\ pend' = [pend EXCEPT ![E.th] = None] /\ i' = i + 1 /\ UNCHANGED <<t, reg>>
Take(th) == LET o == pend[th] IN
            /\ o.op # "none" /\ ~o.done
            /\ o.op = "put" => o.hd \notin DOMAIN reg
            /\ reg' = IF o.op = "put" THEN L!Put(reg, o.hd, o.obj) ELSE IF o.op = "remove" THEN L!Del(reg, o.hd) ELSE reg
            /\ pend' = [pend EXCEPT ![th].done = TRUE, ![th].res = IF o.op = "put" THEN 0 ELSE L!Find(reg, o.hd)]
            /\ UNCHANGED <<t, i>>
Next == (i <= Len(T) /\ (Call \/ Ret)) \/ \E th \in DOMAIN pend : Take(th)
Spec == Init /\ [][Next]_<<t, i, reg, pend>>
Accept == i = Len(T) + 1 => PrintT("@" \o ToString(t))
=============================================================================
