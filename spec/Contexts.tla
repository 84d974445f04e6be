------------------------------- MODULE Contexts -------------------------------
(* The contexts which handlers run with. The host's callers make requests (calls) of  *)
(* module instances, each with a context of its own; while such a call is open the    *)
(* module asks the host for something and names the call, or a stream which it asked  *)
(* for before, as the parent. The handler then works for whoever that parent works    *)
(* for. Stream numbers count per instance: 2, 4, .. for calls, 1, 3, .. for asks.     *)
(* With Peer the endpoint is a socket peer or a module: everything works for the        *)
(* connection, whatever number a request names.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, Asks,    \* 1..n
          Insts, CForms, AForms,
          Peer, Mortal,     \* a socket peer or a module; its connection's context may be cancelled
          D
VARIABLES c, a, dead, h
vars == <<c, a, dead, h>>
NoC == [f |-> "", i |-> 0, n |-> 0, resp |-> TRUE, feed |-> TRUE]
NoA == [f |-> "", i |-> 0, n |-> 0, out |-> TRUE, in |-> TRUE, own |-> 0]
Conn == 99                                  \* the owner of everything on a peer
Init == c = [k \in Calls |-> NoC] /\ a = [j \in Asks |-> NoA] /\ dead = {} /\ h = <<>>
COpen(k) == c[k].f # "" /\ ~(c[k].resp /\ c[k].feed)
AOpen(j) == a[j].f # "" /\ ~(a[j].out /\ a[j].in)
Stream(f) == f \in {"rs", "rc"}
\* who a request with this parent works for
Owner(i, n) ==
  IF Peer THEN Conn
  ELSE LET C == {k \in Calls : COpen(k) /\ c[k].i = i /\ c[k].n = n}
           A == {j \in Asks : AOpen(j) /\ Stream(a[j].f) /\ a[j].i = i /\ a[j].n = n}
       IN IF C # {} THEN CHOOSE k \in C : TRUE
          ELSE IF A # {} THEN a[CHOOSE j \in A : TRUE].own
          ELSE 0
\* what the contexts of the requests under way tell
Obs(aa, dd) == [j \in {x \in Asks : aa[x].f # "" /\ ~(aa[x].out /\ aa[x].in)} |-> [own |-> aa[j].own, done |-> aa[j].own \in dd]]
Log(act, arg, cc, aa, dd) ==
  /\ c' = cc /\ a' = aa /\ dead' = dd
  /\ h' = Append(h, [a |-> act, arg |-> arg,
                     o |-> {[j |-> j, own |-> Obs(aa, dd)[j].own, done |-> Obs(aa, dd)[j].done] : j \in DOMAIN Obs(aa, dd)}])
Same(act, arg) == Log(act, arg, c, a, dead)
Call(k) == /\ ~Peer /\ c[k].f = "" /\ \A x \in Calls : x < k => c[x].f # ""
  /\ \E f \in CForms, i \in Insts :
       LET n == 2 * (1 + Cardinality({x \in Calls : c[x].f # "" /\ c[x].i = i})) IN
       Log("call", [k |-> k, f |-> f, i |-> i, n |-> n],
           [c EXCEPT ![k] = [f |-> f, i |-> i, n |-> n, resp |-> f = "fnf", feed |-> f # "rc"]], a, dead)
\* the module answers
Answer(k) == /\ COpen(k) /\ ~c[k].resp
  /\ \E t \in {"next", "complete", "last", "error"} :
       /\ (t = "next" => c[k].f # "rr")
       /\ Log("answer", [k |-> k, t |-> t],
              [c EXCEPT ![k].resp = @ \/ t # "next", ![k].feed = @ \/ t = "error"], a, dead)
\* the caller of a channel ends what it sends, or the module wants no more of it
Feed(k) == /\ COpen(k) /\ ~c[k].feed
  /\ \E t \in {"complete", "refuse"} : Log("feed", [k |-> k, t |-> t], [c EXCEPT ![k].feed = TRUE], a, dead)
Cancel(k) == /\ COpen(k) /\ ~c[k].resp /\ Stream(c[k].f)
  /\ Log("cancel", [k |-> k], [c EXCEPT ![k].resp = TRUE, ![k].feed = TRUE], a, dead)
\* the caller's context, or the one of the connection, is cancelled
Expire == \E k \in (IF Peer THEN {x \in {Conn} : Mortal} ELSE {x \in Calls : c[x].f # ""}) :
  /\ k \notin dead
  /\ Log("expire", [k |-> k], c, a, dead \cup {k})
\* parents: every number in use, one that is not, none
Parents == {0, 77} \cup (1 .. 2 * Cardinality(Asks) + 2)
Ask(j) == /\ a[j].f = "" /\ \A x \in Asks : x < j => a[x].f # ""
  /\ \E f \in AForms, i \in Insts, p \in Parents :
       LET n == 2 * Cardinality({x \in Asks : a[x].f # "" /\ a[x].i = i}) + 1 IN
       Log("ask", [j |-> j, f |-> f, i |-> i, n |-> n, p |-> p], c,
           [a EXCEPT ![j] = [f |-> f, i |-> i, n |-> n, out |-> FALSE, in |-> f # "rc", own |-> Owner(i, p)]], dead)
\* the handler, or its publisher, ends
End(j) == /\ AOpen(j) /\ ~a[j].out
  /\ \E t \in {"complete", "error"} :
       /\ (t = "error" => a[j].f # "fnf")
       /\ Log("end", [j |-> j, t |-> t], c, [a EXCEPT ![j].out = TRUE, ![j].in = @ \/ t = "error"], dead)
\* a handler's publisher answers with a value: nothing ends
Tell(j) == /\ AOpen(j) /\ ~a[j].out /\ Stream(a[j].f) /\ Same("tell", [j |-> j])
\* the module ends or cancels what it asked for
AFrame(j) == /\ AOpen(j) /\ Stream(a[j].f)
  /\ \/ a[j].f = "rc" /\ ~a[j].in /\ \E t \in {"complete", "error"} : Log("frame", [j |-> j, t |-> t], c, [a EXCEPT ![j].in = TRUE], dead)
     \/ Log("frame", [j |-> j, t |-> "cancel"], c, [a EXCEPT ![j].out = TRUE, ![j].in = TRUE], dead)
Step == Len(h) < D /\ ((\E k \in Calls : Call(k) \/ Answer(k) \/ Feed(k) \/ Cancel(k)) \/ Expire \/ \E j \in Asks : Ask(j) \/ End(j) \/ Tell(j) \/ AFrame(j))
Next == Step
Spec == Init /\ [][Next]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<c, a, dead>>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* whoever a request works for made a call of the same instance
OwnInstance == \A j \in Asks : a[j].own \in Calls => c[a[j].own].f # "" /\ c[a[j].own].i = a[j].i
\* what a request works for never changes
OwnerStays == [][\A j \in Asks : a[j].f # "" => a'[j].own = a[j].own]_vars
\* nobody is told to stop but by the one it works for
OnlyOwner == \A j \in Asks : AOpen(j) => (Obs(a, dead)[j].done <=> a[j].own \in dead)
\* a number belongs to one request at most
OneEach == \A i \in Insts, n \in 1 .. 40 : Cardinality({k \in Calls : c[k].i = i /\ c[k].n = n}) + Cardinality({j \in Asks : a[j].i = i /\ a[j].n = n}) <= 1
=============================================================================
