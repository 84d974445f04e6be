--------------------------- MODULE UnboundedTrace ----------------------------
(* Validation of recorded executions of the receive queue with several         *)
(* producers, one disposer and one consumer that reads and loads.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES t, i, q, disposed, pend, closed
vars == <<t, i, q, disposed, pend, closed>>
Traces == JsonDeserialize("traces.json")
T == Traces[t]
E == T[i]
None == [op |-> "none"]
Threads(tr) == {tr[k].th : k \in 1..Len(tr)}
Init == t \in 1..Len(Traces) /\ i = 1 /\ q = <<>> /\ disposed = FALSE /\ closed = FALSE /\ pend = [th \in Threads(Traces[t]) |-> None]
Call == /\ E.k = "call" /\ pend' = [pend EXCEPT ![E.th] = [op |-> E.op, v |-> E.v, done |-> FALSE, res |-> FALSE]]
        /\ i' = i + 1 /\ UNCHANGED <<t, q, disposed, closed>>
Ret == /\ E.k = "ret" /\ pend[E.th].op # "none" /\ pend[E.th].done /\ pend[E.th].res = E.res
       /\ pend' = [pend EXCEPT ![E.th] = None] /\ i' = i + 1 /\ UNCHANGED <<t, q, disposed, closed>>
Take(th) == LET o == pend[th] IN
            /\ o.op # "none" /\ ~o.done
            /\ IF o.op = "put"
               THEN /\ q' = IF disposed THEN q ELSE Append(q, o.v)
                    /\ pend' = [pend EXCEPT ![th].done = TRUE, ![th].res = ~disposed] /\ UNCHANGED disposed
               ELSE disposed' = TRUE /\ pend' = [pend EXCEPT ![th].done = TRUE, ![th].res = TRUE] /\ UNCHANGED q
            /\ UNCHANGED <<t, i, closed>>
Recv == /\ E.k = "recv" /\ ~closed /\ q # <<>> /\ Head(q) = E.v /\ q' = Tail(q) /\ i' = i + 1 /\ UNCHANGED <<t, disposed, pend, closed>>
Closed == /\ E.k = "closed" /\ ~closed /\ disposed /\ q = <<>> /\ closed' = TRUE /\ i' = i + 1 /\ UNCHANGED <<t, q, disposed, pend>>
Next == (i <= Len(T) /\ (Call \/ Ret \/ Recv \/ Closed)) \/ \E th \in DOMAIN pend : Take(th)
Spec == Init /\ [][Next]_vars
Accept == (i = Len(T) + 1 /\ closed) => PrintT("@" \o ToString(t))
=============================================================================
