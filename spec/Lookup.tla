------------------------------- MODULE Lookup -------------------------------
(* The stream table of an endpoint (proxy.Lookup): an exact map from stream     *)
(* numbers to streams.  A number is registered at most once at a time (an       *)
(* endpoint registers a stream when the request starts and removes it when it   *)
(* ends); every registration is of a new stream object.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids, D, MaxLive

VARIABLES reg,   \* function from the registered numbers to stream objects
          cnt,   \* number of stream objects made so far
          h      \* history: the behaviour, with the observation of each step
vars == <<reg, cnt, h>>

NoObj == 0
Live == DOMAIN reg
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Find(f, k) == IF k \in DOMAIN f THEN f[k] ELSE NoObj

\* What is observed after every step: the whole table, looked up number by
\* number, its size and whether it says it is empty.
Obs(f) == [get |-> [k \in Ids |-> Find(f, k)], size |-> Cardinality(DOMAIN f), empty |-> (DOMAIN f = {})]

Init == reg = [x \in {} |-> 0] /\ cnt = 0 /\ h = <<>>

Add(k) == /\ k \notin Live
          /\ Cardinality(Live) < MaxLive
          /\ cnt' = cnt + 1
          /\ reg' = Put(reg, k, cnt + 1)
          /\ h' = Append(h, [a |-> "add", id |-> k, obj |-> cnt + 1, o |-> Obs(reg')])

Remove(k) == /\ reg' = Del(reg, k)
             /\ UNCHANGED cnt
             /\ h' = Append(h, [a |-> "remove", id |-> k, o |-> Obs(reg')])

Next == /\ Len(h) < D
        /\ \E k \in Ids : Add(k) \/ Remove(k)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* Exactness: a lookup finds the object of the last add if no remove followed.
LastOp(k) == LET S == {i \in 1..Len(h) : h[i].id = k} IN
             IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Exact == \A k \in Ids :
           Find(reg, k) = IF LastOp(k) = 0 THEN NoObj
                          ELSE IF h[LastOp(k)].a = "add" THEN h[LastOp(k)].obj ELSE NoObj
SizeExact == Cardinality(Live) = Cardinality({k \in Ids : Find(reg, k) # NoObj})
Distinct == \A j, k \in Live : reg[j] = reg[k] => j = k

Emit == Len(h) = D => PrintT("@" \o ToJson(h))
=============================================================================
