------------------------------ MODULE UuidClock ------------------------------
(* Time and clock sequence pairs (types/uuid/time.go).  The clock counts units  *)
(* of 100ns from a fixed start; it stands still, moves on or jumps back.  (What *)
(* is handed out counts from 15 October 1582; the harness checks the distance.)  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS D, Seqs, Free,     \* Free: sequence changes in the middle are allowed
          Starts             \* "set": a sequence is chosen; "fresh": a new process, the first use takes one from the random source
VARIABLES now, last, seq, pairs, h
vars == <<now, last, seq, pairs, h>>
M == 16384
Init == now = 0 /\ last = 0 - 1 /\ pairs = <<>> /\ \E s \in Seqs, a \in Starts : seq = s % M /\ h = <<[a |-> a, s |-> s, o |-> <<>>]>>
Add(a) == h' = Append(h, a)
Get == LET s == IF now <= last THEN (seq + 1) % M ELSE seq IN
       /\ seq' = s /\ last' = now /\ pairs' = Append(pairs, <<now, s>>) /\ UNCHANGED now
       /\ Add([a |-> "get", o |-> <<now, s>>])
Tick == \E d \in {1, 2} : now' = now + d /\ UNCHANGED <<last, seq, pairs>> /\ Add([a |-> "tick", d |-> d, o |-> <<>>])
Back == now > 0 /\ now' = 0 /\ UNCHANGED <<last, seq, pairs>> /\ Add([a |-> "back", o |-> <<>>])
Show == UNCHANGED <<now, last, seq, pairs>> /\ Add([a |-> "show", o |-> <<seq>>])
Set == Free /\ \E s \in Seqs :
         /\ seq' = s % M /\ last' = IF s % M = seq THEN last ELSE 0 - 1
         /\ UNCHANGED <<now, pairs>> /\ Add([a |-> "set", s |-> s, o |-> <<>>])
\* a new sequence taken from the random source (the harness makes it deliver s)
Random == Free /\ \E s \in Seqs :
         /\ seq' = s % M /\ last' = IF s % M = seq THEN last ELSE 0 - 1
         /\ UNCHANGED <<now, pairs>> /\ Add([a |-> "random", s |-> s, o |-> <<>>])
Next == Len(h) < D /\ (Get \/ Tick \/ Back \/ Show \/ Set \/ Random)
Spec == Init /\ [][Next]_vars
NeverTwice == ~Free => \A i, j \in 1..Len(pairs) : i # j => pairs[i] # pairs[j]
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
=============================================================================
