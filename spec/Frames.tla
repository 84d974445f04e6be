------------------------------- MODULE Frames -------------------------------
(* Every frame of a family, whole, cut short or with one byte replaced, and what *)
(* it must decode to (FrameLayout.tla).                                          *)
EXTENDS FrameLayout, Json
CONSTANTS Kinds, Sids, Ns, MDs, Datas, Tokens, Mimes, Durs, Vers, Phase, Vals
VARIABLES f, mut
vars == <<f, mut>>

\* ------------------------------------------------------------------- frames
Bools == {TRUE, FALSE}
Setups == [k : {"setup"}, major : Vers, minor : Vers, ka : Durs, ml : Durs, token : Tokens, mmime : Mimes, dmime : Mimes, md : MDs, data : Datas, lease : Bools]
Requests == [k : Kinds \cap {"rs"}, sid : Sids, md : MDs, data : Datas, follows : Bools, complete : {TRUE}, n : Ns]
       \cup [k : Kinds \cap {"rc"}, sid : Sids, md : MDs, data : Datas, follows : Bools, complete : Bools, n : Ns]
       \cup [k : Kinds \cap {"rr", "fnf"}, sid : Sids, md : MDs, data : Datas, follows : Bools, complete : {TRUE}, n : {<<0,0,0,1>>}]
Payloads == [k : {"payload"}, sid : Sids, md : MDs, data : Datas, follows : Bools, complete : Bools, next : Bools]
ReqNs == [k : {"reqn"}, sid : Sids, n : Ns]
Cancels == [k : {"cancel"}, sid : Sids]
Errors == [k : {"error"}, sid : Sids, code : Ns, data : Datas]
All == (IF "setup" \in Kinds THEN Setups ELSE {}) \cup Requests \cup (IF "payload" \in Kinds THEN Payloads ELSE {})
       \cup (IF "reqn" \in Kinds THEN ReqNs ELSE {}) \cup (IF "cancel" \in Kinds THEN Cancels ELSE {}) \cup (IF "error" \in Kinds THEN Errors ELSE {})
\* phase "round": the whole frame; "cut": the first bytes of it; "corrupt": one byte replaced
Muts(x) == CASE Phase = "round" -> {[m |-> "none"]}
             [] Phase = "cut" -> {[m |-> "cut", n |-> i] : i \in 0..(Size(Encode(x)) - 1)}
             [] OTHER -> {[m |-> "set", n |-> i, v |-> v] : i \in 1..Size(Encode(x)), v \in Vals}
Apply(w, m) == CASE m.m = "none" -> w
                 [] m.m = "cut" -> Take(w, m.n)
                 [] OTHER -> Take(w, m.n - 1) \o U8(m.v) \o Drop(w, m.n)
Init == f \in All /\ mut \in Muts(f)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Norm(x) == [key \in DOMAIN x |-> IF key \in {"md", "data", "token", "mmime", "dmime"} THEN Join(x[key]) ELSE x[key]]
RoundTrip == LET d == Decode(Encode(f)) IN d.ok /\ Norm([key \in DOMAIN f |-> d[key]]) = Norm(f)
SizeFits == Size(Encode(f)) >= 6
Emit == PrintT("@" \o ToJson(<<[a |-> mut.m, f |-> f, sid |-> Sid(f), type |-> TypeNo[f.k], flags |-> Flags(f),
                               wire |-> Apply(Encode(f), mut), dec |-> Decode(Apply(Encode(f), mut))]>>))
=============================================================================
