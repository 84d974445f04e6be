------------------------------- MODULE Convert -------------------------------
(* Converters between wire values and user types (package msgpack/convert):      *)
(* a decision table over what they are given, and the text form of times.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Years, Months, Days, Clocks, Nanos, Offsets, Phase
VARIABLES c
\* ------------------------------------------------------------- decision table
\* name, may the value be nil, may it be refused
Convs == { [n |-> "String", nil |-> FALSE, bad |-> FALSE], [n |-> "NillableString", nil |-> TRUE, bad |-> FALSE],
           [n |-> "Bool", nil |-> FALSE, bad |-> FALSE], [n |-> "NillableBool", nil |-> TRUE, bad |-> FALSE],
           [n |-> "Numeric", nil |-> FALSE, bad |-> FALSE], [n |-> "NillableNumeric", nil |-> TRUE, bad |-> FALSE],
           [n |-> "ByteArray", nil |-> TRUE, bad |-> FALSE],
           [n |-> "StringToTime", nil |-> FALSE, bad |-> TRUE], [n |-> "StringToTimePtr", nil |-> TRUE, bad |-> TRUE],
           [n |-> "Parse", nil |-> FALSE, bad |-> TRUE], [n |-> "NillableParse", nil |-> TRUE, bad |-> TRUE],
           [n |-> "Format", nil |-> TRUE, bad |-> FALSE], [n |-> "TimeToStringPtr", nil |-> TRUE, bad |-> FALSE] }
Formats == {"Format", "TimeToStringPtr"}      \* take no error
Vals(x) == {"zero", "some"} \cup (IF x.nil THEN {"nil"} ELSE {}) \cup (IF x.bad THEN {"bad"} ELSE {})
Errs(x) == IF x.n \in Formats THEN {FALSE} ELSE {TRUE, FALSE}
Cases == {[conv |-> x.n, val |-> v, err |-> e] : x \in Convs, v \in {"zero", "some", "nil", "bad"}, e \in BOOLEAN}
Defined(k) == \E x \in Convs : x.n = k.conv /\ k.val \in Vals(x) /\ k.err \in Errs(x)
\* a given error is passed on with no value; nil stays nil; what cannot be parsed is an error and no value
Outcome(k) == IF k.err THEN [err |-> "given", val |-> "none"]
              ELSE IF k.val = "nil" THEN [err |-> "no", val |-> "nil"]
              ELSE IF k.val = "bad" THEN [err |-> "own", val |-> "none"]
              ELSE [err |-> "no", val |-> k.val]
\* ----------------------------------------------------------------- time texts
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 0
\* days since 1970-01-01
RECURSIVE Before(_,_)
Before(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + Before(y, m - 1)
LeapsUpTo(y) == y \div 4 - y \div 100 + y \div 400
Year0(y) == 365 * y + (IF y = 0 THEN 0 ELSE LeapsUpTo(y - 1) + 1) - 719528
DayNo(y, m, d) == Year0(y) + Before(y, m) + d - 1
D(n, w) == [j \in 1..w |-> 48 + ((n \div (10 ^ (w - j))) % 10)]
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Frac(ns) == IF ns = 0 THEN <<>> ELSE <<46>> \o Trim(D(ns, 9))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* offset in seconds east
Zone(o) == IF o = 0 THEN <<90>> ELSE (IF o < 0 THEN <<45>> ELSE <<43>>) \o D(Abs(o) \div 3600, 2) \o <<58>> \o D((Abs(o) \div 60) % 60, 2)
Text(t) == D(t.y, 4) \o <<45>> \o D(t.mo, 2) \o <<45>> \o D(t.d, 2) \o <<84>> \o D(t.clock[1], 2) \o <<58>> \o D(t.clock[2], 2) \o <<58>> \o D(t.clock[3], 2) \o Frac(t.ns) \o Zone(t.off)
ValidTime(t) == t.mo \in 1..12 /\ t.d \in 1..DaysIn(t.y, t.mo) /\ t.clock[1] < 24 /\ t.clock[2] < 60 /\ t.clock[3] < 60
Times == [y : Years, mo : Months, d : Days, clock : Clocks, ns : Nanos, off : Offsets]
\* the instant: days since 1970 and seconds into that day (perhaps outside it by the offset)
Instant(t) == [day |-> DayNo(t.y, t.mo, t.d), sec |-> t.clock[1] * 3600 + t.clock[2] * 60 + t.clock[3] - t.off, ns |-> t.ns]
Repl(s, k, x) == [s EXCEPT ![k] = x]
Init == \/ Phase = "table" /\ c \in {[a |-> "conv"] @@ k @@ [o |-> Outcome(k)] : k \in {k \in Cases : Defined(k)}}
        \/ /\ Phase = "times"
           /\ \E t \in {t \in Times : ValidTime(t)} :
              c = [a |-> "time", text |-> IF t.off % 60 = 0 THEN Text(t) ELSE <<>>, off |-> t.off, at |-> Instant(t)]
        \/ /\ Phase = "bad"
           /\ \E t \in Times : LET s == Text(t) IN
              \/ ~ValidTime(t) /\ c = [a |-> "bad", text |-> s]
              \/ ValidTime(t) /\ \E k \in 1..Len(s) : c = [a |-> "bad", text |-> Repl(s, k, 120)] \/ c = [a |-> "bad", text |-> SubSeq(s, 1, k - 1)]
              \/ ValidTime(t) /\ c = [a |-> "bad", text |-> Append(s, 32)]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* the calendar is the one in which 2000-03-01 is day 11017 and every day follows the day before it
ASSUME DayNo(1970, 1, 1) = 0 /\ DayNo(2000, 3, 1) = 11017 /\ DayNo(1969, 12, 31) = -1
ASSUME \A y \in {0, 1, 3, 4, 5, 99, 100, 101, 399, 400, 401, 1600, 1899, 1900, 1999, 2000, 2023, 2024, 9998} :
         /\ \A m \in 1..11 : DayNo(y, m + 1, 1) = DayNo(y, m, DaysIn(y, m)) + 1
         /\ DayNo(y + 1, 1, 1) = DayNo(y, 12, 31) + 1
Total == c.a = "conv" => ((c.o.err = "no") <=> (c.o.val # "none"))
Emit == PrintT("@" \o ToJson(<<c>>))
=============================================================================
