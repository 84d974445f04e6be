------------------------------ MODULE Transform ------------------------------
(* The ready-made transforms between user types and payloads (package transform): *)
(* which values each of them carries, in which bytes, and what it says of bytes.   *)
EXTENDS MsgPack
CONSTANTS Values, Wires, Texts, Handles, Phase
VARIABLES c
\* name of the transform -> what its payloads are read as
Kind == [String |-> "str", Int |-> "i64", Int64 |-> "i64", Int32 |-> "i32", Int16 |-> "i16", Int8 |-> "i8",
         Uint |-> "u64", Uint64 |-> "u64", Uint32 |-> "u32", Uint16 |-> "u16", Uint8 |-> "u8",
         Float64 |-> "f64", Float32 |-> "f32", Bytes |-> "bin", Bool |-> "bool", Any |-> "any",
         Int32Of |-> "i32", Int64Of |-> "i64", Uint64Of |-> "u64", Float32Of |-> "f32", Float64Of |-> "f64", StringOf |-> "str",
         Codec |-> "any", MsgPack |-> "any", Strings |-> "strings", Numbers |-> "numbers", Named |-> "named", Digits |-> "digits", Void |-> "void", Time |-> "timetext"]
Names == DOMAIN Kind
Strs(l) == \A j \in 1..Len(l) : l[j].k = "str"
\* the value can be given to a transform of that kind
Carries(kind, v) ==
  CASE kind \in {"str", "bin", "bool", "f32", "f64"} -> v.k = kind
    [] kind = "i64" -> v.k = "i" [] kind = "i32" -> v.k = "i" /\ FitsS(v.b, 4) [] kind = "i16" -> v.k = "i" /\ FitsS(v.b, 2) [] kind = "i8" -> v.k = "i" /\ FitsS(v.b, 1)
    [] kind = "u64" -> v.k = "u" [] kind = "u32" -> v.k = "u" /\ FitsU(v.b, 4) [] kind = "u16" -> v.k = "u" /\ FitsU(v.b, 2) [] kind = "u8" -> v.k = "u" /\ FitsU(v.b, 1)
    [] kind = "any" -> TRUE
    [] kind = "strings" -> v.k = "arr" /\ Strs(v.l)
    [] kind = "numbers" -> v.k = "arr" /\ \A j \in 1..Len(v.l) : v.l[j].k = "i"
    [] kind = "named" -> v.k = "map" /\ \A j \in 1..Len(v.l) : v.l[j][1].k = "str" /\ v.l[j][2].k = "i"
    [] OTHER -> FALSE
By(v) == {n \in Names : Carries(Kind[n], v)}
\* what a transform says of a payload; bytes behind the value may be refused
Loose(o, w) == IF o.r = "val" /\ o.n < Size(w) THEN [o EXCEPT !.r = "maybe"] ELSE o
ListOf(o, Ok(_)) == IF o.r = "val" /\ o.v.k = "arr" THEN IF \A j \in 1..Len(o.v.l) : Ok(o.v.l[j]) THEN o ELSE Free ELSE Free
Says(n, w) == LET k == Kind[n] IN
  CASE k = "void" -> [r |-> "void"]
    [] k = "timetext" -> IF Read("str", w).r = "err" THEN Err ELSE Free
    [] k \in {"strings", "numbers"} -> IF Read("arrsize", w).r = "err" THEN Err
                          ELSE Loose(ListOf(Read("any", w), LAMBDA x : x.k = IF k = "strings" THEN "str" ELSE "i"), w)
    [] k = "named" -> IF Read("mapsize", w).r = "err" THEN Err ELSE Free
    [] k = "digits" -> IF Read("str", w).r = "err" THEN Err ELSE Free
    [] OTHER -> Loose(Read(k, w), w)
Pair(p) == Enc(p[1]) \o Enc(p[2])
Init == \/ /\ Phase = "carry"
           /\ \E v \in Values : c = [a |-> "carry", v |-> v, by |-> By(v), wire |-> Enc(v),
                                     head |-> IF v.k = "map" THEN MapHead(Len(v.l)) ELSE <<>>,
                                     parts |-> IF v.k = "map" THEN [j \in 1..Len(v.l) |-> Pair(v.l[j])] ELSE <<>>]
        \/ /\ Phase = "say"
           /\ \E w \in Wires : c = [a |-> "say", wire |-> w, o |-> LET o == [n \in Names |-> Says(n, w)] IN [n \in {m \in Names : o[m].r # "err"} |-> o[n]]]
        \* numbers as texts; texts that are not numbers
        \/ Phase = "texts" /\ \E t \in Texts : c = [a |-> "digits", wire |-> Enc(Str(t.s)), ok |-> t.ok, n |-> t.n]
        \* n live objects travel as handles
        \/ Phase = "texts" /\ \E n \in Handles : c = [a |-> "handles", n |-> n]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* whatever a transform carries it says again of the bytes (a dynamic one also of numbers: as they are read)
RoundTrip == c.a = "carry" /\ c.v.k # "rep" => \A n \in c.by : LET o == Says(n, c.wire) IN
  o.r = "val" => o.v = Norm(c.v) /\ o.n = Size(c.wire)
\* every value is carried by some transform, and no transform of a number refuses what it wrote
Carried == c.a = "carry" => c.by # {} /\ \A n \in c.by : Says(n, c.wire).r # "err"
Emit == PrintT("@" \o ToJson(<<c>>))
=============================================================================
