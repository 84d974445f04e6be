---------------------------- MODULE StreamIdTrace ----------------------------
(* Validation of the numbers the code really hands out.  A trace is a list of   *)
(* entries per thread: runs [id, n, fl] of n numbers id, id+2, ... with the     *)
(* same first-loop flag, so that a whole loop of 2^30 numbers fits in a trace.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
VARIABLES t, pos, last, second, n
vars == <<t, pos, last, second, n>>
Traces == JsonDeserialize("traces.json")
S == INSTANCE StreamId WITH Top <- 2147483647, Side <- "client", Procs <- {}, K <- 0, loops <- 0, got <- <<>>
Top == 2147483647
C == Traces[t]          \* side, start (last number handed out before), second (start lies in a later loop), th
Init == t \in 1..Len(Traces) /\ pos = [k \in 1..Len(Traces[t].th) |-> 1] /\ last = Traces[t].start /\ second = Traces[t].second /\ n = 0
\* thread k takes the next run of its log
Take(k) == /\ pos[k] <= Len(C.th[k])
           /\ LET r == C.th[k][pos[k]]
                  w == last # 0 /\ S!Succ(C.side, Top, last) = S!First(C.side)     \* a new loop begins
                  sec == second \/ w
              IN /\ r.id = S!Succ(C.side, Top, last)
                 /\ r.n >= 1 /\ r.n - 1 <= (S!Last(C.side, Top) - r.id) \div 2       \* the run does not pass the end of the loop
                 /\ r.fl = ~sec
                 /\ second' = sec
                 /\ last' = r.id + 2 * (r.n - 1)
           /\ pos' = [pos EXCEPT ![k] = @ + 1] /\ n' = n + 1 /\ UNCHANGED t
Next == \E k \in DOMAIN pos : Take(k)
Spec == Init /\ [][Next]_vars
Accept == (\A k \in DOMAIN pos : pos[k] = Len(C.th[k]) + 1) => PrintT("@" \o ToString(t))
=============================================================================
