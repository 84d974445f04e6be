------------------------------ MODULE SockWire ------------------------------
(* The bytes of a connection and how they arrive.  Frames (and items that are no  *)
(* frames) are sent one behind the other, each behind its length in three bytes;  *)
(* the network hands the bytes over in chunks cut anywhere, and may announce the  *)
(* end of the stream together with the last bytes or by itself.  After each chunk *)
(* the receiver has read exactly the frames whose bytes have arrived, up to the   *)
(* first item that is no frame.                                                   *)
EXTENDS FrameLayout, Json
CONSTANTS Items,       \* what may be sent
          Len0, Len1,  \* how many items
          MaxChunks,   \* chunks cut freely; the chunk after them brings the rest
          Every,       \* sizes of chunks cut regularly (0: cut freely)
          Near,        \* {}: cut anywhere, else only this near to the ends of items and to multiples of 4096
          Early        \* may the stream end before all was delivered
VARIABLES sent, every, pos, h
vars == <<sent, every, pos, h>>
\* items: a frame (field k), or raw bytes behind a length
W(x) == IF "raw" \in DOMAIN x THEN U24(Size(x.raw)) \o x.raw ELSE U24(Size(Encode(x))) \o Encode(x)
Valid(x) == IF "raw" \in DOMAIN x THEN Decode(x.raw).ok ELSE TRUE
Lens == [i \in 1..Len(sent) |-> Size(W(sent[i]))]
RECURSIVE Sum(_,_)
Sum(l, n) == IF n = 0 THEN 0 ELSE l[n] + Sum(l, n - 1)
Total == Sum(Lens, Len(sent))
\* the frames before the first item that is none, and where it is recognised: an item without
\* bytes by its length
Good == IF \E i \in 1..Len(sent) : ~Valid(sent[i]) THEN (CHOOSE i \in 1..Len(sent) : ~Valid(sent[i]) /\ \A j \in 1..(i - 1) : Valid(sent[j])) - 1 ELSE Len(sent)
Got(p) == Cardinality({i \in 1..Good : Sum(Lens, i) <= p})
Broken(p) == Good < Len(sent) /\ Sum(Lens, Good + 1) <= p
Inside(p) == ~\E i \in 0..Len(sent) : Sum(Lens, i) = p
\* how reading ends: "open" it waits, "err", "eof", "any" (the end in the middle of an item)
End(p, eof) == IF Broken(p) THEN "err" ELSE IF ~eof THEN "open" ELSE IF Inside(p) THEN "any" ELSE "eof"
Cuts == IF Near = {} THEN (pos + 1)..Total
        ELSE {p \in {Sum(Lens, i) + d : i \in 0..Len(sent), d \in Near} \cup {4096 * i + d : i \in 0..(Total \div 4096), d \in Near} \cup {Total} : pos < p /\ p <= Total}
Init == /\ sent \in UNION {[1..n -> Items] : n \in Len0..Len1}
        /\ every \in Every
        /\ pos = 0
        /\ h = <<[a |-> "sent", items |-> [i \in 1..Len(sent) |-> [ok |-> Valid(sent[i]), w |-> W(sent[i])]]]>>
Over == h[Len(h)].a = "chunk" /\ (h[Len(h)].eof \/ h[Len(h)].o.end # "open")
Deliver(n, eof) == /\ pos' = pos + n
                   /\ h' = Append(h, [a |-> "chunk", n |-> n, eof |-> eof, o |-> [got |-> Got(pos + n), end |-> End(pos + n, eof)]])
                   /\ UNCHANGED <<sent, every>>
Rest == Total - pos
Next == /\ ~Over
        /\ \E eof \in {TRUE, FALSE} :
           IF Rest = 0 THEN eof /\ Deliver(0, TRUE)
           ELSE IF every > 0 THEN LET n == IF every < Rest THEN every ELSE Rest IN (eof => n = Rest) /\ Deliver(n, eof)
           ELSE IF Len(h) > MaxChunks THEN Deliver(Rest, eof)
           ELSE \E p \in Cuts : (eof => p = Total \/ Early) /\ Deliver(p - pos, eof)
Spec == Init /\ [][Next]_vars
Emit == Over => PrintT("@" \o ToJson(h))
\* nothing is read twice or taken back, and all is read when all has arrived
Grows == \A i \in 2..(Len(h) - 1) : h[i].o.got <= h[i + 1].o.got
Whole == (Over /\ pos = Total) => h[Len(h)].o.got = Good
=============================================================================
