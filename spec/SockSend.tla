------------------------------ MODULE SockSend ------------------------------
(* The sending half of a connection.  A frame that was sent with a flush, or sent *)
(* before a flush, is on the wire when that call has reported success; one that   *)
(* was not may be.  When the wire fails after Fault bytes, what is on it stays a  *)
(* beginning of what was sent, and every flush reports the failure.  A frame that *)
(* three bytes of length cannot announce is refused and leaves nothing behind;    *)
(* of an error, which somebody waits for, the beginning of the text is sent.      *)
EXTENDS FrameLayout, Json
CONSTANTS Items, D, Faults   \* Faults: numbers of bytes after which the wire fails (0: never)
VARIABLES fault, total, flushed, h
vars == <<fault, total, flushed, h>>
MaxLen == 16777215
Init == fault \in Faults /\ total = 0 /\ flushed = 0 /\ h = <<[a |-> "wire", fault |-> fault]>>
Fails(t) == fault > 0 /\ t >= fault
\* the wire holds between min and max bytes of what was sent; ok: "yes", "no", "any"
Obs(t, fl, ok) == [ok |-> ok, min |-> IF Fails(fl) THEN fault - 1 ELSE fl, max |-> IF Fails(t) THEN fault - 1 ELSE t]
Send(x, flush) ==
  LET w == IF x.k = "error" THEN Take(Encode(x), MaxLen) ELSE Encode(x)
      n == Size(w)
      t == IF n > MaxLen THEN total ELSE total + 3 + n
      fl == IF flush /\ n <= MaxLen THEN t ELSE flushed
  IN /\ total' = t /\ flushed' = fl /\ UNCHANGED fault
     /\ h' = Append(h, [a |-> "send", w |-> IF n > MaxLen THEN w ELSE U24(n) \o w, flush |-> flush, f |-> x,
                        o |-> Obs(t, fl, IF n > MaxLen THEN "no" ELSE IF Fails(IF flush THEN t ELSE flushed) THEN (IF flush THEN "no" ELSE "any") ELSE IF Fails(t) THEN "any" ELSE "yes")])
Flush == /\ flushed' = total /\ UNCHANGED <<fault, total>>
         /\ h' = Append(h, [a |-> "flush", o |-> Obs(total, total, IF Fails(total) THEN "no" ELSE "yes")])
Next == Len(h) <= D /\ (Flush \/ \E x \in Items, fl \in {TRUE, FALSE} : Send(x, fl))
Spec == Init /\ [][Next]_vars
Emit == Len(h) > D => PrintT("@" \o ToJson(h))
Ordered == \A i \in 3..Len(h) : h[i - 1].o.min <= h[i].o.min /\ h[i].o.min <= h[i].o.max
=============================================================================
