------------------------------- MODULE RxTrace -------------------------------
(* Validation of recorded concurrent executions of a publisher: producer,      *)
(* canceller, requesters and listeners act on different threads.  Calls are     *)
(* recorded when they start and return, callbacks when they run; which ending   *)
(* call wins, and whether a value was admitted before the end, are internal     *)
(* steps.                                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
VARIABLES t, i, out, pend, told, fin, term, demand, asked
vars == <<t, i, out, pend, told, fin, term, demand, asked>>

Traces == JsonDeserialize("traces.json")
T == Traces[t].ev
C == Traces[t]          \* .end: somebody ends it, .listeners: their number, .attached
None == [op |-> "none"]
ThreadsOf(tr) == {tr[k].th : k \in {k \in 1..Len(tr) : tr[k].k = "call"}}

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ out = "none"
        /\ pend = [th \in ThreadsOf(Traces[t].ev) |-> None]
        /\ told = {} /\ fin = FALSE /\ term = FALSE /\ demand = 0 /\ asked = 0

Ends == [complete |-> "complete", success |-> "complete", error |-> "error", cancel |-> "cancel"]
IsEnd(op) == op \in {"complete", "success", "error", "cancel"}

E == T[i]
Adv == i' = i + 1 /\ UNCHANGED t
Call == /\ E.k = "call"
        /\ pend' = [pend EXCEPT ![E.th] = [op |-> E.op, v |-> E.v, ok |-> FALSE]]
        /\ asked' = IF E.op = "request" THEN asked + E.v ELSE asked
        /\ Adv /\ UNCHANGED <<out, told, fin, term, demand>>
\* an ending call has decided the outcome, or found it decided, when it returns
Ret == /\ E.k = "ret"
       /\ (IsEnd(pend[E.th].op) /\ C.strict) => out # "none"
       /\ pend' = [pend EXCEPT ![E.th] = None]
       /\ Adv /\ UNCHANGED <<out, told, fin, term, demand, asked>>
\* internal: an ending call wins
Decide(th) == /\ out = "none" /\ pend[th].op # "none" /\ IsEnd(pend[th].op)
              /\ out' = Ends[pend[th].op]
              /\ UNCHANGED <<t, i, pend, told, fin, term, demand, asked>>
\* internal: a value that the transformation refuses ends it with the error
DecideBad(th) == /\ out = "none" /\ pend[th].op = "push" /\ pend[th].v = 9 /\ C.map
                 /\ out' = "error"
                 /\ UNCHANGED <<t, i, pend, told, fin, term, demand, asked>>
\* internal: a push finds the subscription open
Admit(th) == /\ out = "none" /\ pend[th].op = "push" /\ ~pend[th].ok
             /\ pend' = [pend EXCEPT ![th].ok = TRUE]
             /\ UNCHANGED <<t, i, out, told, fin, term, demand, asked>>
CbNext == /\ E.k = "next" /\ \E th \in DOMAIN pend : pend[th].op = "push" /\ pend[th].ok /\ pend[th].v = E.v
          /\ Adv /\ UNCHANGED <<out, pend, told, fin, term, demand, asked>>
CbTerm == /\ E.k \in {"complete", "error"} /\ ~term /\ ~fin /\ out = E.k /\ term' = TRUE
          /\ Adv /\ UNCHANGED <<out, pend, told, fin, demand, asked>>
CbFin == /\ E.k = "finally" /\ ~fin /\ out = E.sig /\ (out # "cancel" => term) /\ fin' = TRUE
         /\ Adv /\ UNCHANGED <<out, pend, told, term, demand, asked>>
CbTold == /\ E.k = "told" /\ E.v \notin told /\ out = E.sig /\ told' = told \cup {E.v}
          /\ Adv /\ UNCHANGED <<out, pend, fin, term, demand, asked>>
\* demand reaches the producer: never more than was asked for so far
CbDemand == /\ E.k = "demand" /\ demand' = demand + E.v /\ demand' <= asked
            /\ Adv /\ UNCHANGED <<out, pend, told, fin, term, asked>>

Next == \/ i <= Len(T) /\ (Call \/ Ret \/ CbNext \/ CbTerm \/ CbFin \/ CbTold \/ CbDemand)
        \/ \E th \in DOMAIN pend : Decide(th) \/ DecideBad(th) \/ Admit(th)
Spec == Init /\ [][Next]_vars
Good == /\ i = Len(T) + 1
        /\ (out # "none") => fin /\ told = 1..C.listeners
        /\ (out = "none") => ~fin /\ told = {} /\ (C.attached => demand = asked)
Accept == Good => PrintT("@" \o ToString(t))
=============================================================================
