--------------------------- MODULE CustomSections ---------------------------
(* Reading named custom sections of a WebAssembly module file: magic, version,   *)
(* then sections of one id byte, a LEB128 size and contents; a custom section     *)
(* (id 0) starts with its name, a LEB128 length and UTF-8 bytes.                  *)
EXTENDS Wire, Json
CONSTANTS Secs, MaxSecs, Phase, Vals
VARIABLES s, mut
vars == <<s, mut>>
\* a section: [id, name (bytes), body (wire), pad (extra LEB bytes)]
RECURSIVE Leb(_,_)
Leb(v, pad) == IF v < 128 /\ pad = 0 THEN U8(v) ELSE U8(128 + (v % 128)) \o Leb(v \div 128, IF v < 128 THEN pad - 1 ELSE pad)
Content(x) == IF x.id = 0 THEN Leb(Size(x.name), x.pad) \o x.name \o x.body ELSE x.body
EncSec(x) == U8(x.id) \o Leb(Size(Content(x)), x.pad) \o Content(x)
Encode(q) == Bs(<<0, 97, 115, 109, 1, 0, 0, 0>>) \o Concat([k \in 1..Len(q) |-> EncSec(q[k])])
Bad == [ok |-> FALSE]
\* LEB128 at the front of w: [ok, v, n]; values that do not fit TLC's integers are beyond every input here
RECURSIVE DecLeb(_,_)
DecLeb(w, k) ==
  IF Size(w) < 1 \/ k = 5 THEN Bad
  ELSE IF At(w, 1) < 128 THEN IF k = 4 /\ At(w, 1) > 15 THEN Bad ELSE [ok |-> TRUE, v |-> IF k = 4 /\ At(w, 1) > 7 THEN 2147483647 ELSE At(w, 1), n |-> 1]
  ELSE LET r == DecLeb(Drop(w, 1), k + 1)
       IN IF ~r.ok THEN Bad
          ELSE [ok |-> TRUE, n |-> r.n + 1,
                v |-> IF r.v >= 16777216 THEN 2147483647 ELSE r.v * 128 + (At(w, 1) % 128)]
\* the custom sections in w, in order: [ok, secs]
RECURSIVE Read(_)
Read(w) ==
  IF Size(w) = 0 THEN [ok |-> TRUE, secs |-> <<>>]
  ELSE LET l == DecLeb(Drop(w, 1), 0) IN
  IF ~l.ok THEN Bad
  ELSE LET r == Drop(w, 1 + l.n) IN
  IF Size(r) < l.v THEN Bad
  ELSE LET c == Take(r, l.v)
           rest == Read(Drop(r, l.v))
       IN IF ~rest.ok THEN Bad
          ELSE IF At(w, 1) # 0 THEN rest
          ELSE LET nl == DecLeb(c, 0) IN
               IF ~nl.ok THEN Bad
               ELSE IF nl.n + nl.v > Size(c) THEN Bad
               ELSE [ok |-> TRUE, secs |-> <<[name |-> Join(Take(Drop(c, nl.n), nl.v)), body |-> Join(Drop(c, nl.n + nl.v))]>> \o rest.secs]
Decode(w) == IF Size(w) < 8 \/ Join(Take(w, 8)) # Join(Bs(<<0, 97, 115, 109, 1, 0, 0, 0>>)) THEN Bad ELSE Read(Drop(w, 8))
Files == UNION {[1..n -> Secs] : n \in 0..MaxSecs}
Muts(q) == CASE Phase = "round" -> {[m |-> "none"]}
             [] Phase = "cut" -> {[m |-> "cut", n |-> i] : i \in 0..(Size(Encode(q)) - 1)}
             [] OTHER -> {[m |-> "set", n |-> i, v |-> v] : i \in 1..Size(Encode(q)), v \in Vals}
Apply(w, m) == CASE m.m = "none" -> w
                 [] m.m = "cut" -> Take(w, m.n)
                 [] OTHER -> Take(w, m.n - 1) \o U8(m.v) \o Drop(w, m.n)
Init == s \in Files /\ mut \in Muts(s)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RoundTrip == LET d == Decode(Encode(s))
                 cs == SelectSeq(s, LAMBDA x : x.id = 0)
             IN d.ok /\ Len(d.secs) = Len(cs) /\ \A k \in 1..Len(cs) : d.secs[k] = [name |-> Join(cs[k].name), body |-> Join(cs[k].body)]
Emit == PrintT("@" \o ToJson(<<[a |-> mut.m, wire |-> Apply(Encode(s), mut), dec |-> Decode(Apply(Encode(s), mut))]>>))
=============================================================================
