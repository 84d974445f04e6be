-------------------------------- MODULE Frag --------------------------------
(* Splitting a request or payload frame for a maximum frame size: what every     *)
(* splitting has to satisfy (Valid), and one that does (Split).                   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Kinds, MDs, Datas, Maxs
VARIABLES c
WithN == {"rs", "rc"}
Head6(k) == IF k \in WithN THEN 10 ELSE 6
FrameSize(k, m, d) == Head6(k) + (IF m > 0 THEN 3 ELSE 0) + m + d
\* the smallest maximum with which every fragment can carry at least a byte
Smallest(x) == Head6(x.k) + (IF x.md > 0 THEN 4 ELSE 1)
Fits(x) == FrameSize(x.k, x.md, x.data) <= x.max
Sum(s) == LET RECURSIVE S(_)
              S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + s[k]
          IN S(Len(s))
\* fr: the fragments, each [k, sid, n, moff, mlen, doff, dlen, size, follows, next, complete]; moff/doff say
\* where its bytes are in the original (offset of the first; -1: they are not those bytes)
Valid(x, fr) ==
  LET n == Len(fr) IN
  IF Fits(x) THEN n = 0
  ELSE /\ n > 0
       /\ \A i \in 1..n : /\ fr[i].size <= x.max
                          /\ fr[i].size = FrameSize(fr[i].k, fr[i].mlen, fr[i].dlen)
                          /\ fr[i].sid = x.sid
                          /\ fr[i].follows = (i < n)
                          /\ fr[i].k = (IF i = 1 THEN x.k ELSE "payload")
                          /\ (i = 1 /\ x.k \in WithN) => fr[i].n = x.n
                          /\ (i < n /\ fr[i].k = "payload") => ~fr[i].next /\ ~fr[i].complete
                          /\ (i < n /\ fr[i].k = "rc") => ~fr[i].complete
                          /\ fr[i].moff = (IF i = 1 THEN 0 ELSE fr[i-1].moff + fr[i-1].mlen)
                          /\ fr[i].doff = (IF i = 1 THEN 0 ELSE fr[i-1].doff + fr[i-1].dlen)
       /\ fr[n].moff + fr[n].mlen = x.md
       /\ fr[n].doff + fr[n].dlen = x.data
       /\ fr[n].k = "payload" => fr[n].next = (IF x.k = "payload" THEN x.next ELSE TRUE) /\ fr[n].complete = x.complete
\* a greedy splitting
RECURSIVE Rest(_,_,_)
Rest(x, mo, do) ==
  IF mo = x.md /\ do = x.data THEN <<>>
  ELSE LET k == IF mo = 0 /\ do = 0 THEN x.k ELSE "payload"
           over == Head6(k) + (IF mo < x.md THEN 3 ELSE 0)
           m == IF x.md - mo > x.max - over THEN x.max - over ELSE x.md - mo
           d == IF x.data - do > x.max - over - m THEN x.max - over - m ELSE x.data - do
           last == mo + m = x.md /\ do + d = x.data
       IN <<[k |-> k, sid |-> x.sid, n |-> x.n, moff |-> mo, mlen |-> m, doff |-> do, dlen |-> d, size |-> FrameSize(k, m, d), follows |-> ~last,
             next |-> (last /\ (x.k # "payload" \/ x.next)), complete |-> (last /\ x.complete)]>> \o Rest(x, mo + m, do + d)
Split(x) == IF Fits(x) THEN <<>> ELSE Rest(x, 0, 0)
Cases == {x \in [k : Kinds, sid : {77}, n : {5}, md : MDs, data : Datas, max : Maxs, next : {TRUE, FALSE}, complete : {TRUE, FALSE}] :
            /\ x.max >= Smallest(x)
            /\ (x.k # "payload") => x.next
            /\ (x.k \in {"rr", "fnf", "rs"}) => x.complete}
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
SplitIsValid == Valid(c, Split(c))
Emit == PrintT("@" \o ToJson(<<c>>))
=============================================================================
