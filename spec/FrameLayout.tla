---------------------------- MODULE FrameLayout ----------------------------
(* The RSocket frame layouts used by this system, as functions between frames   *)
(* and byte strings (Wire.tla).  Numbers of 32 bits are four-byte sequences.     *)
EXTENDS Wire
TypeNo == [setup |-> 1, rr |-> 4, fnf |-> 5, rs |-> 6, rc |-> 7, reqn |-> 8, cancel |-> 9, payload |-> 10, error |-> 11]
NEXT == 32
COMPLETE == 64
FOLLOW == 128
METADATA == 256
If(c, v) == IF c THEN v ELSE 0
Bit(x, b) == (x \div b) % 2 = 1
Request == {"rr", "fnf", "rs", "rc"}
WithN == {"rs", "rc"}

Flags(x) ==
  CASE x.k = "setup" -> If(x.lease, COMPLETE) + If(Size(x.token) > 0, FOLLOW) + If(Size(x.md) > 0, METADATA)
    [] x.k \in Request -> If(x.k = "rc" /\ x.complete, COMPLETE) + If(x.follows, FOLLOW) + If(Size(x.md) > 0, METADATA)
    [] x.k = "payload" -> If(x.next, NEXT) + If(x.complete, COMPLETE) + If(x.follows, FOLLOW) + If(Size(x.md) > 0, METADATA)
    [] OTHER -> 0
Sid(x) == IF x.k = "setup" THEN 0 ELSE x.sid
Header(x) == U31(Sid(x)) \o U16(TypeNo[x.k] * 1024 + Flags(x))
Metadata(x) == IF Size(x.md) > 0 THEN U24(Size(x.md)) \o x.md ELSE <<>>
Body(x) ==
  CASE x.k = "setup" -> U16(x.major) \o U16(x.minor) \o Bs(x.ka) \o Bs(x.ml)
                          \o (IF Size(x.token) > 0 THEN U16(Size(x.token)) \o x.token ELSE <<>>)
                          \o U8(Size(x.mmime)) \o x.mmime \o U8(Size(x.dmime)) \o x.dmime
                          \o Metadata(x) \o x.data
    [] x.k \in Request -> (IF x.k \in WithN THEN Bs(x.n) ELSE <<>>) \o Metadata(x) \o x.data
    [] x.k = "payload" -> Metadata(x) \o x.data
    [] x.k = "reqn" -> Bs(x.n)
    [] x.k = "cancel" -> <<>>
    [] x.k = "error" -> Bs(x.code) \o x.data
Encode(x) == Header(x) \o Body(x)

\* ------------------------------------------------------------------ decoding
Bad == [ok |-> FALSE]
Num(w, n) == LET RECURSIVE V(_,_)
                 V(k, acc) == IF k > n THEN acc ELSE V(k + 1, acc * 256 + At(w, k))
             IN V(1, 0)                               \* only for n <= 3
Quad(w) == <<At(w, 1), At(w, 2), At(w, 3), At(w, 4)>>
\* metadata and data of a body: [ok, md, data]
MdData(w, has) ==
  IF ~has THEN [ok |-> TRUE, md |-> <<>>, data |-> w]
  ELSE IF Size(w) < 3 THEN Bad
  ELSE LET n == Num(w, 3)
           r == Drop(w, 3)
       IN IF Size(r) < n THEN Bad ELSE [ok |-> TRUE, md |-> Take(r, n), data |-> Drop(r, n)]
KindOf(t) == IF \E k \in DOMAIN TypeNo : TypeNo[k] = t THEN CHOOSE k \in DOMAIN TypeNo : TypeNo[k] = t ELSE "unknown"
Decode(w) ==
  IF Size(w) < 6 THEN Bad
  ELSE
  LET tf == At(w, 5) * 256 + At(w, 6)
      fl == tf % 1024
      k == KindOf(tf \div 1024)
      sid == (At(w, 1) % 128) * 16777216 + At(w, 2) * 65536 + At(w, 3) * 256 + At(w, 4)
      b == Drop(w, 6)
      has == Bit(fl, METADATA)
  IN CASE k = "unknown" -> Bad
       [] k = "setup" ->
            IF Size(b) < 12 THEN Bad
            ELSE LET r == Bit(fl, FOLLOW)
                     b1 == Drop(b, 12)
                     tl == IF r /\ Size(b1) >= 2 THEN Num(b1, 2) ELSE 0
                 IN IF r /\ (Size(b1) < 2 \/ Size(b1) < 2 + tl) THEN Bad
                    ELSE LET tok == IF r THEN Take(Drop(b1, 2), tl) ELSE <<>>
                             b2 == IF r THEN Drop(b1, 2 + tl) ELSE b1
                         IN IF Size(b2) < 1 \/ Size(b2) < 1 + At(b2, 1) THEN Bad
                            ELSE LET mm == Take(Drop(b2, 1), At(b2, 1))
                                     b3 == Drop(b2, 1 + At(b2, 1))
                                 IN IF Size(b3) < 1 \/ Size(b3) < 1 + At(b3, 1) THEN Bad
                                    ELSE LET dm == Take(Drop(b3, 1), At(b3, 1))
                                             m == MdData(Drop(b3, 1 + At(b3, 1)), has)
                                         IN IF ~m.ok THEN Bad
                                            ELSE [ok |-> TRUE, k |-> k, major |-> Num(b, 2), minor |-> Num(Drop(b, 2), 2), ka |-> Quad(Drop(b, 4)), ml |-> Quad(Drop(b, 8)),
                                                  token |-> tok, mmime |-> mm, dmime |-> dm, md |-> m.md, data |-> m.data, lease |-> Bit(fl, COMPLETE)]
       [] k \in Request ->
            IF k \in WithN /\ Size(b) < 4 THEN Bad
            ELSE LET m == MdData(IF k \in WithN THEN Drop(b, 4) ELSE b, has)
                 IN IF ~m.ok THEN Bad
                    ELSE [ok |-> TRUE, k |-> k, sid |-> sid, md |-> m.md, data |-> m.data, follows |-> Bit(fl, FOLLOW),
                          complete |-> (k # "rc" \/ Bit(fl, COMPLETE)), n |-> IF k \in WithN THEN Quad(b) ELSE <<0,0,0,1>>]
       [] k = "payload" ->
            LET m == MdData(b, has)
            IN IF ~m.ok THEN Bad
               ELSE [ok |-> TRUE, k |-> k, sid |-> sid, md |-> m.md, data |-> m.data, follows |-> Bit(fl, FOLLOW), complete |-> Bit(fl, COMPLETE), next |-> Bit(fl, NEXT)]
       [] k = "reqn" -> IF Size(b) < 4 THEN Bad ELSE [ok |-> TRUE, k |-> k, sid |-> sid, n |-> Quad(b)]
       [] k = "cancel" -> [ok |-> TRUE, k |-> k, sid |-> sid]
       [] k = "error" -> IF Size(b) < 4 THEN Bad ELSE [ok |-> TRUE, k |-> k, sid |-> sid, code |-> Quad(b), data |-> Drop(b, 4)]

=============================================================================
