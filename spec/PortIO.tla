------------------------------- MODULE PortIO --------------------------------
(* Port messages (package invoke): marker byte (1 next, 2 complete), length of *)
(* the port name in two bytes, the name, and the data to the end.               *)
EXTENDS Wire, Json
CONSTANTS PortLens, DataLens, Phase
VARIABLES m, cut, h
vars == <<m, cut, h>>

Flags(x) == (IF x.next THEN 1 ELSE 0) + (IF x.complete THEN 2 ELSE 0)
Name(x) == Pat(97, x.plen)
Data(x) == Pat(7, x.dlen)
Encode(x) == U8(Flags(x)) \o U16(x.plen) \o Name(x) \o Data(x)
\* what the bytes say, or an error
Decode(w) ==
  IF Size(w) < 3 THEN [ok |-> FALSE]
  ELSE LET f == At(w, 1)
           n == At(w, 2) * 256 + At(w, 3)
           r == Drop(w, 3)
       IN IF Size(r) < n THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, next |-> f % 2 = 1, complete |-> (f \div 2) % 2 = 1, port |-> Join(Take(r, n)), data |-> Join(Drop(r, n))]
Msgs == [plen : PortLens, dlen : DataLens, next : {TRUE, FALSE}, complete : {TRUE, FALSE}]
Put(w, b) == U8(b) \o Drop(w, 1)
Wire(x) == Put(Encode(x), Flags(x) + 4 * h)
\* the markers spelt out
Text(x) == IF x.next THEN (IF x.complete THEN "N|CL" ELSE "N") ELSE IF x.complete THEN "CL" ELSE ""
\* phase "round": encode and decode; phase "cut": decode a message that lost its tail;
\* phase "bits": decode a message with bits in the marker byte that mean nothing
Init == /\ m \in Msgs
        /\ cut \in (IF Phase # "cut" THEN {Size(Encode(m))} ELSE 0..(Size(Encode(m)) - 1))
        /\ h \in (IF Phase = "bits" THEN 0..63 ELSE {0})
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
RoundTrip == LET d == Decode(Wire(m)) IN
             d.ok /\ d.next = m.next /\ d.complete = m.complete /\ d.port = Join(Name(m)) /\ d.data = Join(Data(m))
Emit == PrintT("@" \o ToJson(<<[a |-> Phase, port |-> Name(m), data |-> Data(m), next |-> m.next, complete |-> m.complete, text |-> Text(m), bits |-> 4 * h,
                               wire |-> Take(Wire(m), cut), dec |-> Decode(Take(Wire(m), cut))]>>))
=============================================================================
