------------------------------- MODULE MsgPack -------------------------------
(* MessagePack (package msgpack): how every value is written, and what every     *)
(* byte string says to every reader.  64-bit numbers are 8 bytes, most           *)
(* significant first; byte strings are runs (module Wire).                        *)
EXTENDS Wire, Json

\* ------------------------------------------------------------------ values
\* [k |-> "nil"]            [k |-> "bool", t]        [k |-> "i" / "u", b : 8 bytes]  (signed and unsigned writers)
\* [k |-> "f32" / "f64", b] [k |-> "str" / "bin", s] [k |-> "time", b : seconds, ns]
\* [k |-> "rep", n, v]: a list of n equal one-byte values      [k |-> "asize" / "msize", b]: only the header of a list or map
\* [k |-> "arr", l]         [k |-> "map", l : <<<<key, value>>, ...>>]   [k |-> "ext", id, s]
Nil == [k |-> "nil"]
Bool(t) == [k |-> "bool", t |-> t]
I(b) == [k |-> "i", b |-> b]
U(b) == [k |-> "u", b |-> b]
F32(b) == [k |-> "f32", b |-> b]
F64(b) == [k |-> "f64", b |-> b]
Str(s) == [k |-> "str", s |-> s]
Bin(s) == [k |-> "bin", s |-> s]
Time(b, ns) == [k |-> "time", b |-> b, ns |-> ns]
Arr(l) == [k |-> "arr", l |-> l]
Map(l) == [k |-> "map", l |-> l]
Ext(id, s) == [k |-> "ext", id |-> id, s |-> s]

Rep(x, n) == [j \in 1..n |-> x]
Low(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))
Small(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Upper(b, n, x) == \A j \in 1..(8 - n) : b[j] = x
\* the number (two's complement) fits n bytes signed; the number (unsigned) fits n bytes
FitsS(b, n) == n = 8 \/ (Upper(b, n, 0) /\ b[9 - n] < 128) \/ (Upper(b, n, 255) /\ b[9 - n] >= 128)
FitsU(b, n) == Upper(b, n, 0)

\* ----------------------------------------------------------------- writing
EncI(b) == Bs(IF FitsS(b, 1) /\ (b[8] < 128 \/ b[8] >= 224) THEN <<b[8]>>
              ELSE IF FitsS(b, 1) THEN <<208>> \o Low(b, 1) ELSE IF FitsS(b, 2) THEN <<209>> \o Low(b, 2)
              ELSE IF FitsS(b, 4) THEN <<210>> \o Low(b, 4) ELSE <<211>> \o b)
EncU(b) == Bs(IF FitsU(b, 1) /\ b[8] < 128 THEN <<b[8]>>
              ELSE IF FitsU(b, 1) THEN <<204>> \o Low(b, 1) ELSE IF FitsU(b, 2) THEN <<205>> \o Low(b, 2)
              ELSE IF FitsU(b, 4) THEN <<206>> \o Low(b, 4) ELSE <<207>> \o b)
StrHead(n) == IF n < 32 THEN U8(160 + n) ELSE IF n < 256 THEN U8(217) \o U8(n) ELSE IF n < 65536 THEN U8(218) \o U16(n) ELSE U8(219) \o U31(n)
BinHead(n) == IF n < 256 THEN U8(196) \o U8(n) ELSE IF n < 65536 THEN U8(197) \o U16(n) ELSE U8(198) \o U31(n)
ArrHead(n) == IF n < 16 THEN U8(144 + n) ELSE IF n < 65536 THEN U8(220) \o U16(n) ELSE U8(221) \o U31(n)
MapHead(n) == IF n < 16 THEN U8(128 + n) ELSE IF n < 65536 THEN U8(222) \o U16(n) ELSE U8(223) \o U31(n)
ExtHead(n) == CASE n = 1 -> U8(212) [] n = 2 -> U8(213) [] n = 4 -> U8(214) [] n = 8 -> U8(215) [] n = 16 -> U8(216)
                [] n < 256 /\ n \notin {1, 2, 4, 8, 16} -> U8(199) \o U8(n) [] n >= 256 /\ n < 65536 -> U8(200) \o U16(n) [] n >= 65536 -> U8(201) \o U31(n)
\* timestamp 32: seconds; 64: 30 bits nanoseconds, 34 bits seconds; 96: 32 bits nanoseconds, 64 bits seconds
Stamp(b, ns) == IF Upper(b, 5, 0) /\ b[4] < 4
                THEN IF ns = 0 /\ b[4] = 0 THEN Low(b, 4)
                     ELSE <<ns \div 4194304, (ns \div 16384) % 256, (ns \div 64) % 256, (ns % 64) * 4 + b[4]>> \o Low(b, 4)
                ELSE Low(Small(ns), 4) \o b
EncTime(b, ns) == LET s == Stamp(b, ns) IN ExtHead(Len(s)) \o U8(255) \o Bs(s)
\* the header of a list (or map) of up to 2^32-1 items, number given as 8 bytes
CountHead(b, fix, c16, c32) == Bs(IF FitsU(b, 1) /\ b[8] < 16 THEN <<fix + b[8]>> ELSE IF FitsU(b, 2) THEN <<c16>> \o Low(b, 2) ELSE <<c32>> \o Low(b, 4))
RECURSIVE Enc(_)
Enc(v) == CASE v.k = "nil" -> U8(192)
            [] v.k = "bool" -> U8(IF v.t THEN 195 ELSE 194)
            [] v.k = "i" -> EncI(v.b)
            [] v.k = "u" -> EncU(v.b)
            [] v.k = "f32" -> U8(202) \o Bs(v.b)
            [] v.k = "f64" -> U8(203) \o Bs(v.b)
            [] v.k = "str" -> StrHead(Size(v.s)) \o v.s
            [] v.k = "bin" -> BinHead(Size(v.s)) \o v.s
            [] v.k = "time" -> EncTime(v.b, v.ns)
            [] v.k = "arr" -> ArrHead(Len(v.l)) \o Concat([j \in 1..Len(v.l) |-> Enc(v.l[j])])
            [] v.k = "map" -> MapHead(Len(v.l)) \o Concat([j \in 1..Len(v.l) |-> Enc(v.l[j][1]) \o Enc(v.l[j][2])])
            [] v.k = "rep" -> ArrHead(v.n) \o Fill(Enc(v.v)[1][1], v.n)
            [] v.k = "asize" -> CountHead(v.b, 144, 220, 221)
            [] v.k = "msize" -> CountHead(v.b, 128, 222, 223)
            [] v.k = "ext" -> ExtHead(Size(v.s)) \o U8(v.id) \o v.s

\* every well-formed encoding of a scalar or of a header, also those that are not the shortest
WideI(b) == {EncI(b)} \cup {Bs(<<208>> \o Low(b, 1)) : x \in {1} \cap (IF FitsS(b, 1) THEN {1} ELSE {})}
            \cup (IF FitsS(b, 2) THEN {Bs(<<209>> \o Low(b, 2))} ELSE {}) \cup (IF FitsS(b, 4) THEN {Bs(<<210>> \o Low(b, 4))} ELSE {}) \cup {Bs(<<211>> \o b)}
            \cup (IF b[1] < 128 /\ FitsU(b, 1) THEN {Bs(<<204>> \o Low(b, 1))} ELSE {}) \cup (IF b[1] < 128 /\ FitsU(b, 2) THEN {Bs(<<205>> \o Low(b, 2))} ELSE {})
            \cup (IF b[1] < 128 /\ FitsU(b, 4) THEN {Bs(<<206>> \o Low(b, 4))} ELSE {}) \cup (IF b[1] < 128 THEN {Bs(<<207>> \o b)} ELSE {})
WideHead(short, n, c8, c16, c32) ==
  {short} \cup (IF c8 > 0 /\ n < 256 THEN {U8(c8) \o U8(n)} ELSE {}) \cup (IF n < 65536 THEN {U8(c16) \o U16(n)} ELSE {}) \cup {U8(c32) \o U31(n)}

\* ----------------------------------------------------------------- reading
Bad == [ok |-> FALSE]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
\* the n-byte number at place k, as 8 bytes
Have(w, n) == Size(w) >= n
RECURSIVE Bytes(_,_)
Bytes(w, n) == IF n = 0 THEN <<>> ELSE <<At(w, 1)>> \o Bytes(Drop(w, 1), n - 1)
ZeroExt(s) == Rep(0, 8 - Len(s)) \o s
SignExt(s) == Rep(IF s[1] >= 128 THEN 255 ELSE 0, 8 - Len(s)) \o s
\* a length: beyond 2^30 no input here is that long
Huge == 1073741824
Num(s) == IF Len(s) = 4 /\ s[1] >= 64 THEN Huge
          ELSE IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] * 256 + s[2] ELSE ((s[1] * 256 + s[2]) * 256 + s[3]) * 256 + s[4]
\* an integer read from the wire: "i" if it fits 64 bits signed, else "u"
IntVal(b, unsigned) == IF unsigned /\ b[1] >= 128 THEN U(b) ELSE I(b)
\* what a value reads back as
RECURSIVE Norm(_)
Norm(v) == CASE v.k = "u" -> IntVal(v.b, TRUE)
             [] v.k \in {"str", "bin", "ext"} -> [v EXCEPT !.s = Join(@)]
             [] v.k = "arr" -> Arr([j \in 1..Len(v.l) |-> Norm(v.l[j])])
             [] v.k = "map" -> Map([j \in 1..Len(v.l) |-> <<Norm(v.l[j][1]), Norm(v.l[j][2])>>])
             [] OTHER -> v

IntFmt == (0..127) \cup (224..255) \cup (204..211)
StrFmt == (160..191) \cup (217..219)
BinFmt == 196..198
ArrFmt == (144..159) \cup {220, 221}
MapFmt == (128..143) \cup {222, 223}
ExtFmt == (199..201) \cup (212..216)
\* the header of a value that begins with p: length (or count) and size of the header; n = -1: cut short
Hd(w, fixed, lw) == IF lw = 0 THEN [len |-> fixed, n |-> 1] ELSE IF ~Have(w, 1 + lw) THEN [len |-> 0, n |-> -1] ELSE [len |-> Num(Bytes(Drop(w, 1), lw)), n |-> 1 + lw]
LenHd(w) == LET p == At(w, 1) IN
  CASE p \in 160..191 -> Hd(w, p - 160, 0) [] p \in 144..159 -> Hd(w, p - 144, 0) [] p \in 128..143 -> Hd(w, p - 128, 0)
    [] p \in {217, 196, 199} -> Hd(w, 0, 1) [] p \in {218, 197, 220, 222, 200} -> Hd(w, 0, 2) [] p \in {219, 198, 221, 223, 201} -> Hd(w, 0, 4)
    [] p = 212 -> Hd(w, 1, 0) [] p = 213 -> Hd(w, 2, 0) [] p = 214 -> Hd(w, 4, 0) [] p = 215 -> Hd(w, 8, 0) [] p = 216 -> Hd(w, 16, 0)
RECURSIVE Dec(_), DecSeq(_,_)
DecInt(w) == LET p == At(w, 1)
                 num(n, u) == IF Have(w, 1 + n) THEN Got(IntVal(IF u THEN ZeroExt(Bytes(Drop(w, 1), n)) ELSE SignExt(Bytes(Drop(w, 1), n)), u), 1 + n) ELSE Bad
             IN CASE p < 128 -> Got(I(Small(p)), 1) [] p >= 224 -> Got(I(Rep(255, 7) \o <<p>>), 1)
                  [] p = 204 -> num(1, TRUE) [] p = 205 -> num(2, TRUE) [] p = 206 -> num(4, TRUE) [] p = 207 -> num(8, TRUE)
                  [] p = 208 -> num(1, FALSE) [] p = 209 -> num(2, FALSE) [] p = 210 -> num(4, FALSE) [] p = 211 -> num(8, FALSE)
Dec(w) ==
  IF w = <<>> THEN Bad ELSE LET p == At(w, 1) IN
  CASE p \in IntFmt -> DecInt(w)
    [] p = 192 -> Got(Nil, 1) [] p = 194 -> Got(Bool(FALSE), 1) [] p = 195 -> Got(Bool(TRUE), 1) [] p = 193 -> Bad
    [] p = 202 -> IF Have(w, 5) THEN Got(F32(Bytes(Drop(w, 1), 4)), 5) ELSE Bad
    [] p = 203 -> IF Have(w, 9) THEN Got(F64(Bytes(Drop(w, 1), 8)), 9) ELSE Bad
    [] p \in StrFmt \cup BinFmt ->
         LET h == LenHd(w) IN IF h.n < 0 \/ ~Have(w, h.n + h.len) THEN Bad
         ELSE LET s == Join(Take(Drop(w, h.n), h.len)) IN Got(IF p \in StrFmt THEN Str(s) ELSE Bin(s), h.n + h.len)
    [] p \in ExtFmt ->
         LET h == LenHd(w) IN IF h.n < 0 \/ ~Have(w, h.n + 1 + h.len) THEN Bad
         ELSE Got(Ext(At(w, h.n + 1), Join(Take(Drop(w, h.n + 1), h.len))), h.n + 1 + h.len)
    [] p \in ArrFmt -> LET h == LenHd(w) IN IF h.n < 0 THEN Bad ELSE LET r == DecSeq(Drop(w, h.n), h.len) IN IF r.ok THEN Got(Arr(r.l), h.n + r.n) ELSE Bad
    [] p \in MapFmt -> LET h == LenHd(w) IN IF h.n < 0 \/ h.len >= Huge THEN Bad ELSE
                       LET r == DecSeq(Drop(w, h.n), 2 * h.len)
                       IN IF r.ok THEN Got(Map([j \in 1..h.len |-> <<r.l[2 * j - 1], r.l[2 * j]>>]), h.n + r.n) ELSE Bad
DecSeq(w, c) == IF c = 0 THEN [ok |-> TRUE, l |-> <<>>, n |-> 0]
                ELSE IF c > Size(w) THEN Bad
                ELSE LET x == Dec(w) IN IF ~x.ok THEN Bad
                     ELSE LET r == DecSeq(Drop(w, x.n), c - 1) IN IF r.ok THEN [ok |-> TRUE, l |-> <<x.v>> \o r.l, n |-> x.n + r.n] ELSE Bad

\* ---------------------------------------------------- outcomes of the readers
\* "val": this value, n bytes consumed.  "err": an error.  "maybe": that value or an error.
\* "free": an error or any value of the requested kind.
Val(v, n) == [r |-> "val", v |-> v, n |-> n]
Maybe(v, n) == [r |-> "maybe", v |-> v, n |-> n]
Err == [r |-> "err"]
Free == [r |-> "free"]
P(w) == IF w = <<>> THEN -1 ELSE At(w, 1)
\* seconds and nanoseconds of a timestamp extension
StampVal(e) == LET n == Size(e.s) b == Bytes(e.s, n) IN
  IF e.id \notin {255, 13} \/ n \notin {4, 8, 12} THEN [r |-> "err"]
  ELSE IF n = 4 THEN [r |-> "val", v |-> Time(ZeroExt(b), 0)]
  ELSE LET ns == IF n = 8 THEN b[1] * 4194304 + b[2] * 16384 + b[3] * 64 + b[4] \div 4 ELSE Num(Bytes(e.s, 4))
           sec == IF n = 8 THEN ZeroExt(<<b[4] % 4>> \o SubSeq(b, 5, 8)) ELSE SubSeq(b, 5, 12)
       IN IF ns > 999999999 THEN [r |-> "free"] ELSE [r |-> "val", v |-> Time(sec, ns)]
\* a dynamic read: extensions other than time and keys that cannot be keys are refused
Worse(a, b) == IF "err" \in {a, b} THEN "err" ELSE IF "free" \in {a, b} THEN "free" ELSE "val"
RECURSIVE Dyn(_)
RECURSIVE WorstOf(_)
WorstOf(l) == IF l = <<>> THEN "val" ELSE Worse(l[1].r, WorstOf(Tail(l)))
KeyKinds == {"nil", "bool", "i", "u", "f32", "f64", "str", "time"}
Dyn(v) == CASE v.k = "ext" -> StampVal(v)
            [] v.k = "arr" -> LET l == [j \in 1..Len(v.l) |-> Dyn(v.l[j])] x == WorstOf(l) IN
                              IF x = "val" THEN [r |-> x, v |-> Arr([j \in 1..Len(l) |-> l[j].v])] ELSE [r |-> x]
            [] v.k = "map" -> LET ks == [j \in 1..Len(v.l) |-> IF v.l[j][1].k \in {"arr", "map", "bin"} THEN [r |-> "err"] ELSE Dyn(v.l[j][1])]
                                  vs == [j \in 1..Len(v.l) |-> Dyn(v.l[j][2])]
                                  x == Worse(WorstOf(ks), WorstOf(vs))
                              IN IF x # "val" THEN [r |-> x]
                                 ELSE IF \E j, k \in 1..Len(ks) : j # k /\ (ks[j].v = ks[k].v \/ ks[j].v.k \in {"f32", "f64", "time"}) THEN [r |-> "free"]
                                 ELSE [r |-> x, v |-> Map([j \in 1..Len(ks) |-> <<ks[j].v, vs[j].v>>])]
            [] OTHER -> [r |-> "val", v |-> v]
ReadAny(w) == LET d == Dec(w) IN IF ~d.ok THEN Err ELSE LET a == Dyn(d.v) IN
              IF a.r = "val" THEN Val(a.v, d.n) ELSE IF a.r = "free" THEN Free ELSE Err
Skip(w) == LET d == Dec(w) IN IF d.ok THEN [r |-> "val", n |-> d.n] ELSE Err
NextNil(w) == IF w = <<>> THEN Err ELSE IF P(w) = 192 THEN Val(Bool(TRUE), 1) ELSE Val(Bool(FALSE), 0)
ReadBool(w) == IF P(w) \in {194, 195} THEN Val(Bool(P(w) = 195), 1) ELSE Err
\* bytes: width of the reader; signed readers may refuse numbers that came as unsigned ones
ReadI(w, n) == IF P(w) \notin IntFmt THEN Err ELSE LET d == DecInt(w) IN
               IF ~d.ok THEN Err ELSE IF d.v.k = "u" \/ ~FitsS(d.v.b, n) THEN Err
               ELSE IF P(w) \in 204..207 THEN Maybe(d.v, d.n) ELSE Val(d.v, d.n)
ReadU(w, n) == IF P(w) \notin IntFmt THEN Err ELSE LET d == DecInt(w) IN
               IF ~d.ok THEN Err ELSE IF (d.v.k = "i" /\ d.v.b[1] >= 128) \/ ~FitsU(d.v.b, n) THEN Err ELSE Val(d.v, d.n)
ReadF32(w) == IF P(w) \notin {202, 203} \/ ~Dec(w).ok THEN Err ELSE IF P(w) = 202 THEN Val(Dec(w).v, 5) ELSE Free
ReadF64(w) == IF P(w) \notin {202, 203} \/ ~Dec(w).ok THEN Err ELSE IF P(w) = 203 THEN Val(Dec(w).v, 9) ELSE Free
ReadStr(w) == IF P(w) \in StrFmt THEN LET d == Dec(w) IN IF d.ok THEN Val(d.v, d.n) ELSE Err
              ELSE IF P(w) \in ArrFmt THEN Free ELSE Err
ReadBin(w) == IF P(w) \in BinFmt THEN LET d == Dec(w) IN IF d.ok THEN Val(d.v, d.n) ELSE Err
              ELSE IF P(w) = 192 THEN Maybe(Bin(<<>>), 1) ELSE IF P(w) \in 144..159 THEN Free ELSE Err
ReadTime(w) == IF P(w) \in ExtFmt
               THEN LET d == Dec(w) IN IF ~d.ok THEN Err ELSE LET s == StampVal(d.v) IN IF s.r = "val" THEN Val(s.v, d.n) ELSE IF s.r = "free" THEN Free ELSE Err
               ELSE IF P(w) \in StrFmt /\ ~Dec(w).ok THEN Err ELSE IF P(w) \in StrFmt \cup ArrFmt THEN Free ELSE Err
Count(n) == [k |-> "n", b |-> n]
ReadSize(w, fmt) == IF P(w) = 192 THEN Maybe(Count(Small(0)), 1) ELSE IF P(w) \notin fmt THEN Err
                    ELSE LET h == LenHd(w) IN IF h.n < 0 THEN Err
                         ELSE Val(Count(IF h.n = 1 THEN Small(h.len) ELSE ZeroExt(Bytes(Drop(w, 1), h.n - 1))), h.n)
Read(kind, w) ==
  CASE kind = "skip" -> Skip(w) [] kind = "any" -> ReadAny(w) [] kind = "nextnil" -> NextNil(w) [] kind = "bool" -> ReadBool(w)
    [] kind = "i8" -> ReadI(w, 1) [] kind = "i16" -> ReadI(w, 2) [] kind = "i32" -> ReadI(w, 4) [] kind = "i64" -> ReadI(w, 8)
    [] kind = "u8" -> ReadU(w, 1) [] kind = "u16" -> ReadU(w, 2) [] kind = "u32" -> ReadU(w, 4) [] kind = "u64" -> ReadU(w, 8)
    [] kind = "f32" -> ReadF32(w) [] kind = "f64" -> ReadF64(w) [] kind = "str" -> ReadStr(w) [] kind = "bin" -> ReadBin(w)
    [] kind = "time" -> ReadTime(w) [] kind = "arrsize" -> ReadSize(w, ArrFmt) [] kind = "mapsize" -> ReadSize(w, MapFmt)
Kinds == {"skip", "any", "nextnil", "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str", "bin", "time", "arrsize", "mapsize"}
=============================================================================
