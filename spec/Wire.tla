-------------------------------- MODULE Wire --------------------------------
(* Byte strings as sequences of runs <<byte, count>>: fields of 65535 or 2^20   *)
(* bytes stay small in the specification, the harness expands them.  A run     *)
(* whose byte is 256+s stands for the count bytes s, s+1, ... modulo 251.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
B(b) == <<b, 1>>
Bs(s) == [k \in 1..Len(s) |-> <<s[k], 1>>]
U8(v) == <<B(v)>>
U16(v) == <<B(v \div 256), B(v % 256)>>
U24(v) == <<B(v \div 65536), B((v \div 256) % 256), B(v % 256)>>
\* 32 and 64 bit numbers are given as byte sequences where they do not fit TLC's integers
U31(v) == <<B(v \div 16777216), B((v \div 65536) % 256), B((v \div 256) % 256), B(v % 256)>>
Fill(b, n) == IF n = 0 THEN <<>> ELSE <<<<b, n>>>>
Pat(s, n) == IF n = 0 THEN <<>> ELSE <<<<256 + (s % 251), n>>>>
Later(b, d) == IF b < 256 THEN b ELSE 256 + ((b - 256 + d) % 251)     \* the byte d places on in a run
RECURSIVE Size(_)
Size(w) == IF w = <<>> THEN 0 ELSE w[1][2] + Size(Tail(w))
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Concat(Tail(l))
\* the first n bytes, and the bytes after them
RECURSIVE Take(_,_)
Take(w, n) == IF n = 0 \/ w = <<>> THEN <<>>
              ELSE IF w[1][2] <= n THEN <<w[1]>> \o Take(Tail(w), n - w[1][2]) ELSE <<<<w[1][1], n>>>>
RECURSIVE Drop(_,_)
Drop(w, n) == IF n = 0 \/ w = <<>> THEN w
              ELSE IF w[1][2] <= n THEN Drop(Tail(w), n - w[1][2]) ELSE <<<<Later(w[1][1], n), w[1][2] - n>>>> \o Tail(w)
At(w, k) == LET b == Take(Drop(w, k - 1), 1)[1][1] IN IF b < 256 THEN b ELSE b - 256       \* the k-th byte, from 1
\* the same bytes with equal neighbours joined: a canonical form
RECURSIVE Join(_)
Join(w) == IF Len(w) < 2 THEN SelectSeq(w, LAMBDA r : r[2] > 0)
           ELSE IF w[1][2] = 0 THEN Join(Tail(w))
           ELSE IF (w[1][1] >= 256 \/ w[1][1] = w[2][1]) /\ w[2][1] = Later(w[1][1], w[1][2]) THEN Join(<<<<w[1][1], w[1][2] + w[2][2]>>>> \o Tail(Tail(w)))
           ELSE <<w[1]>> \o Join(Tail(w))
=============================================================================
