----------------------------- MODULE LookupTrace -----------------------------
(* Validation of recorded concurrent executions of the stream table: calls and *)
(* returns are in the trace, the moment an operation takes effect is an        *)
(* internal step (the table operations are the ones of Lookup).                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES t, i, reg, pend

Traces == JsonDeserialize("traces.json")
L == INSTANCE Lookup WITH Ids <- {}, D <- 0, MaxLive <- 0, cnt <- 0, h <- <<>>

T == Traces[t]
None == [op |-> "none"]
Threads(tr) == {tr[k].th : k \in 1..Len(tr)}

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ reg = [x \in {} |-> 0]
        /\ pend = [th \in Threads(Traces[t]) |-> None]

\* effect and result of one table operation
Effect(o) == IF o.op = "add" THEN L!Put(reg, o.id, o.obj)
             ELSE IF o.op = "remove" THEN L!Del(reg, o.id) ELSE reg
Result(o) == IF o.op = "get" THEN L!Find(reg, o.id)
             ELSE IF o.op = "size" THEN Cardinality(DOMAIN reg)
             ELSE IF o.op = "empty" THEN (IF DOMAIN reg = {} THEN 1 ELSE 0)
             ELSE 0

Call == /\ i <= Len(T) /\ T[i].k = "call"
        /\ pend' = [pend EXCEPT ![T[i].th] = [op |-> T[i].op, id |-> T[i].id, obj |-> T[i].obj, done |-> FALSE, res |-> 0]]
        /\ i' = i + 1 /\ UNCHANGED <<t, reg>>
Ret ==  /\ i <= Len(T) /\ T[i].k = "ret"
        /\ pend[T[i].th].op # "none" /\ pend[T[i].th].done
        /\ pend[T[i].th].res = T[i].res
        /\ pend' = [pend EXCEPT ![T[i].th] = None]
        /\ i' = i + 1 /\ UNCHANGED <<t, reg>>
Take(th) == /\ pend[th].op # "none" /\ ~pend[th].done
            /\ pend' = [pend EXCEPT ![th].done = TRUE, ![th].res = Result(pend[th])]
            /\ reg' = Effect(pend[th])
            /\ UNCHANGED <<t, i>>
Next == Call \/ Ret \/ \E th \in DOMAIN pend : Take(th)
Spec == Init /\ [][Next]_<<t, i, reg, pend>>
Accept == i = Len(T) + 1 => PrintT("@" \o ToString(t))
=============================================================================
