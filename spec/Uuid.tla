-------------------------------- MODULE Uuid --------------------------------
(* Text and binary forms of UUIDs (module types/uuid).  Texts are sequences of *)
(* character codes; a case is a UUID written in one of the forms and then       *)
(* possibly corrupted at one place.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases, Forms, Muts, Chars
VARIABLES c
Dash == 45
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Upper(ch) == IF ch \in 97..122 THEN ch - 32 ELSE ch
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
RECURSIVE HexOf(_)
HexOf(b) == IF b = <<>> THEN <<>> ELSE <<Hex(b[1] \div 16), Hex(b[1] % 16)>> \o HexOf(Tail(b))
Text(b) == HexOf(SubSeq(b, 1, 4)) \o <<Dash>> \o HexOf(SubSeq(b, 5, 6)) \o <<Dash>> \o HexOf(SubSeq(b, 7, 8)) \o <<Dash>>
           \o HexOf(SubSeq(b, 9, 10)) \o <<Dash>> \o HexOf(SubSeq(b, 11, 16))
Urn == <<117, 114, 110, 58, 117, 117, 105, 100, 58>>
Up(s) == [k \in 1..Len(s) |-> Upper(s[k])]
Mixed(s) == [k \in 1..Len(s) |-> IF k % 2 = 0 THEN Upper(s[k]) ELSE s[k]]
Form(b, f) == CASE f = "text" -> Text(b)
                [] f = "upper" -> Up(Text(b))
                [] f = "mixed" -> Mixed(Text(b))
                [] f = "urn" -> Urn \o Text(b)
                [] f = "URN" -> Mixed(Urn) \o Up(Text(b))
                [] f = "braced" -> <<123>> \o Text(b) \o <<125>>
                [] f = "raw" -> HexOf(b)
                [] f = "RAW" -> Mixed(HexOf(b))

\* reading a text
IsHex(ch) == ch \in (48..57) \cup (65..70) \cup (97..102)
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE Lower(ch) - 87
Fail == [ok |-> FALSE, len |-> FALSE, id |-> <<>>]
Pairs(s) == [k \in 1..(Len(s) \div 2) |-> HexVal(s[2 * k - 1]) * 16 + HexVal(s[2 * k])]
Raw(s) == IF \E k \in 1..Len(s) : ~IsHex(s[k]) THEN Fail ELSE [ok |-> TRUE, len |-> FALSE, id |-> Pairs(s)]
P36(s) == IF s[9] # Dash \/ s[14] # Dash \/ s[19] # Dash \/ s[24] # Dash THEN Fail
          ELSE Raw(SubSeq(s, 1, 8) \o SubSeq(s, 10, 13) \o SubSeq(s, 15, 18) \o SubSeq(s, 20, 23) \o SubSeq(s, 25, 36))
Parse(s) == CASE Len(s) = 36 -> P36(s)
              [] Len(s) = 45 -> IF [k \in 1..9 |-> Lower(s[k])] # Urn THEN Fail ELSE P36(SubSeq(s, 10, 45))
              [] Len(s) = 38 -> IF s[1] # 123 \/ s[38] # 125 THEN Fail ELSE P36(SubSeq(s, 2, 37))
              [] Len(s) = 32 -> Raw(s)
              [] OTHER -> [Fail EXCEPT !.len = TRUE]

Mutate(s, m) == CASE m.k = "none" -> s
                  [] m.k = "set" -> [s EXCEPT ![m.p] = m.ch]
                  [] m.k = "del" -> SubSeq(s, 1, m.p - 1) \o SubSeq(s, m.p + 1, Len(s))
                  [] m.k = "ins" -> SubSeq(s, 1, m.p - 1) \o <<m.ch>> \o SubSeq(s, m.p, Len(s))
                  [] m.k = "cut" -> SubSeq(s, 1, m.p - 1)
                  [] m.k = "swap" -> [s EXCEPT ![m.p] = s[m.p + 1], ![m.p + 1] = s[m.p]]
MutsOf(s) == UNION {CASE k = "none" -> {[k |-> "none", p |-> 1, ch |-> 0]}
                      [] k \in {"set", "ins"} -> [k : {k}, p : 1..Len(s), ch : Chars]
                      [] k \in {"del", "cut"} -> [k : {k}, p : 1..Len(s), ch : {0}]
                      [] k = "swap" -> [k : {k}, p : 1..(Len(s) - 1), ch : {0}] : k \in Muts}
\* fields: the 60 bit time as eight bytes, and the 14 bit clock sequence
Time(b) == <<b[7] % 16, b[8], b[5], b[6], b[1], b[2], b[3], b[4]>>
Clock(b) == (b[9] % 64) * 256 + b[10]
Variant(b) == LET v == b[9] \div 32 IN IF v < 4 THEN "Reserved" ELSE IF v < 6 THEN "RFC4122" ELSE IF v = 6 THEN "Microsoft" ELSE "Future"

Init == \E b \in Bases, f \in Forms : \E m \in MutsOf(Form(b, f)) : c = [b |-> b, f |-> f, m |-> m]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
S == Mutate(Form(c.b, c.f), c.m)
RoundTrip == c.m.k = "none" => Parse(S) = [ok |-> TRUE, len |-> FALSE, id |-> c.b]
\* a text of another length, or with a sign in it that does not belong there, is refused
Refused == (Len(S) \notin {32, 36, 38, 45}) => ~Parse(S).ok
Emit == PrintT("@" \o ToJson(<<[a |-> "parse", s |-> S, want |-> Parse(S), b |-> c.b, text |-> Text(c.b), urn |-> Urn \o Text(c.b),
                               time |-> Time(c.b), clock |-> Clock(c.b), version |-> c.b[7] \div 16, variant |-> Variant(c.b)]>>))
=============================================================================
