------------------------------- MODULE MsgRead -------------------------------
(* Byte strings and what they say to every reader: well-formed encodings (also   *)
(* longer ones than needed), cut short, with one byte replaced, and arbitrary.     *)
EXTENDS MsgPack
CONSTANTS Bases, Cuts, Vals, Tails, Alphabet, N, Deep
\* Bases: well-formed byte strings.  Cuts: every proper prefix too.  Vals: values put in place of each byte.
VARIABLES w
Put(x, k, b) == Take(x, k - 1) \o U8(b) \o Drop(x, k)
Lim(x) == IF Size(x) > 24 THEN 24 ELSE Size(x)
Init == \/ \E x \in Bases, t \in Tails : w = x \o t
        \/ Cuts /\ \E x \in Bases : \E c \in 0..(Lim(x) - 1) : w = Take(x, c)
        \/ Cuts /\ \E x \in Bases : Size(x) > 24 /\ \E c \in 1..2 : w = Take(x, Size(x) - c)
        \/ \E x \in Bases : \E k \in 1..(IF Size(x) > Deep THEN Deep ELSE Size(x)), b \in Vals : w = Put(x, k, b) \o U8(1)
        \/ \E n \in 1..N : \E s \in [1..n -> Alphabet] : w = Bs(s)
Next == FALSE /\ UNCHANGED w
Spec == Init /\ [][Next]_w
\* readers that are not listed report an error
Outs == LET o == [k \in Kinds |-> Read(k, w)] IN [k \in {x \in Kinds : o[x].r # "err"} |-> o[k]]
\* a value is at least one byte and never longer than the input; a dynamic read consumes what skipping does
Sane == \A k \in Kinds : LET o == Read(k, w) IN o.r \in {"val", "maybe"} => o.n <= Size(w) /\ (k # "nextnil" => o.n >= 1)
Agree == LET a == Read("any", w) s == Read("skip", w) IN a.r = "val" => s.r = "val" /\ s.n = a.n
\* cutting anything off a value leaves no value
Prefix == LET s == Read("skip", w) IN s.r = "val" /\ s.n < 30 => \A c \in 0..(s.n - 1) : Read("skip", Take(w, c)).r = "err"
Emit == PrintT("@" \o ToJson(<<[a |-> "read", wire |-> w, o |-> Outs]>>))
=============================================================================
