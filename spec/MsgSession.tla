----------------------------- MODULE MsgSession ------------------------------
(* A reader over several values one after the other (perhaps cut short), and a    *)
(* writer into a buffer that may be too small.                                     *)
EXTENDS MsgPack
CONSTANTS Items, Max, CutBack, Readers, Caps, Mode
VARIABLES all, left, done, err, h
vars == <<all, left, done, err, h>>
RECURSIVE Streams(_)
Streams(n) == IF n = 0 THEN {<<>>} ELSE {s \o <<x>> : s \in Streams(n - 1), x \in Items}
EncAll(s) == Concat([j \in 1..Len(s) |-> Enc(s[j])])
\* reader: all is the byte string, left what is unread
RInit == \E s \in Streams(Max), c \in CutBack : LET x == EncAll(s) IN
         /\ c < Size(x) /\ all = Take(x, Size(x) - c) /\ left = all
RStep == /\ left # <<>> /\ ~err
         /\ \E k \in Readers : LET o == Read(k, left) IN
            /\ o.r \in {"val", "err"}
            /\ IF k # "nextnil" \/ h = <<>> THEN TRUE ELSE h[Len(h)].k # "nextnil"
            /\ IF o.r = "val" THEN left' = Drop(left, o.n) /\ done' = done + o.n /\ UNCHANGED err
               ELSE err' = TRUE /\ UNCHANGED <<left, done>>
            /\ h' = Append(h, [k |-> k, o |-> o, at |-> done'])
            /\ UNCHANGED all
\* writer: all is the sequence of values to write, left the capacity
WInit == \E s \in Streams(Max), c \in Caps : LET n == Size(EncAll(s)) IN
         /\ all = s /\ left = (IF c <= n THEN n - c ELSE 0)
WStep == /\ done < Len(all)
         /\ LET before == Size(EncAll(SubSeq(all, 1, done))) x == Enc(all[done + 1]) IN
            /\ err' = (err \/ before + Size(x) > left)
            /\ h' = Append(h, [v |-> all[done + 1], wire |-> IF err' THEN <<>> ELSE x, err |-> err'])
            /\ done' = done + 1 /\ UNCHANGED <<all, left>>
Init == done = 0 /\ err = FALSE /\ h = <<>> /\ IF Mode = "read" THEN RInit ELSE WInit
Next == IF Mode = "read" THEN RStep ELSE WStep
Spec == Init /\ [][Next]_vars
Over == IF Mode = "read" THEN left = <<>> \/ err ELSE done = Len(all)
\* what was read and what is left is the input
Accounted == Mode = "read" => done + Size(left) = Size(all)
\* the writer fails exactly if the values do not fit
Fits == Mode = "write" => (err <=> Size(EncAll(SubSeq(all, 1, done))) > left)
Emit == Over => PrintT("@" \o ToJson(<<IF Mode = "read" THEN [a |-> "rs", wire |-> all, steps |-> h]
                                       ELSE [a |-> "ws", cap |-> left, steps |-> h]>>))
=============================================================================
