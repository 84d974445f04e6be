------------------------------ MODULE SockServer ------------------------------
(* The listening side: connections are accepted until the server is closed or its  *)
(* context cancelled; each is served by itself, told to the acceptor once it has    *)
(* been set up, and closed once - when it ends or with the server.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cs, D
VARIABLES srv, c, h
vars == <<srv, c, h>>
\* a connection: none, open (not set up), ready, gone; out: what it was sent, r: a request, e: an error
New == [ph |-> "none", told |-> 0, out |-> <<>>]
Init == srv = [listen |-> "idle", closed |-> FALSE, ctx |-> FALSE, lclosed |-> 0] /\ c = [x \in Cs |-> New] /\ h = <<>>
Up(x) == c[x].ph \in {"open", "ready"}
Obs(s, q) == [listen |-> s.listen, lclosed |-> s.lclosed,
              conns |-> [x \in Cs |-> [told |-> q[x].told, out |-> q[x].out, closes |-> IF q[x].ph = "gone" THEN 1 ELSE 0]]]
Log(a, arg, s, q) == /\ srv' = s /\ c' = q
                     /\ h' = Append(h, [a |-> a, c |-> arg, o |-> Obs(s, q)])
Down(q) == [x \in Cs |-> IF q[x].ph \in {"open", "ready"} THEN [q[x] EXCEPT !.ph = "gone"] ELSE q[x]]
\* listening ends once the server is closed; w: the factory gives a listener
Listen(w) == /\ srv.listen = "idle"
             /\ IF ~w THEN Log("nolistener", 0, [srv EXCEPT !.listen = "failed"], c)
                ELSE IF srv.closed \/ srv.ctx THEN Log("listen", 0, [srv EXCEPT !.listen = "returned", !.lclosed = 1, !.closed = TRUE], c)
                ELSE Log("listen", 0, [srv EXCEPT !.listen = "listening"], c)
Listening == srv.listen = "listening"
Over(s) == IF s.listen = "listening" THEN [s EXCEPT !.listen = "returned", !.lclosed = 1, !.closed = TRUE] ELSE s
Close == Log("close", 0, [Over(srv) EXCEPT !.closed = TRUE], Down(c))
Cancel == ~srv.ctx /\ Log("ctx", 0, [Over(srv) EXCEPT !.ctx = TRUE], IF Listening THEN Down(c) ELSE c)
\* the same, and the listener still hands out a connection
Late(x) == c[x].ph = "none" /\ Listening /\ Log("late", x, [Over(srv) EXCEPT !.closed = TRUE], [Down(c) EXCEPT ![x].ph = "gone"])
\* accepting fails once
AcceptError == Listening /\ Log("accepterror", 0, srv, c)
Connect(x) == c[x].ph = "none" /\ Listening /\ (\A y \in Cs : y < x => c[y].ph # "none") /\ Log("connect", x, srv, [c EXCEPT ![x].ph = "open"])
SetUp(x) == c[x].ph = "open" /\ Log("setup", x, srv, [c EXCEPT ![x].ph = "ready", ![x].told = 1])
\* a request before the setup
Early(x) == c[x].ph = "open" /\ Log("request", x, srv, [c EXCEPT ![x].ph = "gone"])
\* a request nobody handles is answered with an error, on its connection
Request(x) == c[x].ph = "ready" /\ Len(c[x].out) < 2 /\ Log("request", x, srv, [c EXCEPT ![x].out = Append(@, "e")])
\* a request of the server's own to the peer of this connection
Call(x) == c[x].told = 1 /\ Len(c[x].out) < 2 /\ Log("call", x, srv, IF Up(x) THEN [c EXCEPT ![x].out = Append(@, "r")] ELSE c)
Garbage(x) == Up(x) /\ Log("garbage", x, srv, [c EXCEPT ![x].ph = "gone"])
Eof(x) == Up(x) /\ Log("eof", x, srv, [c EXCEPT ![x].ph = "gone"])
Step == Len(h) < D /\ ((\E w \in {TRUE, FALSE} : Listen(w)) \/ Close \/ Cancel \/ AcceptError
                       \/ \E x \in Cs : Late(x) \/ Connect(x) \/ SetUp(x) \/ Early(x) \/ Request(x) \/ Call(x) \/ Garbage(x) \/ Eof(x))
Next == Step
Spec == Init /\ [][Next]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<srv, c>>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* the acceptor hears only of connections that were set up; nothing stays open when listening is over
Told == \A x \in Cs : c[x].told = 1 => c[x].ph \in {"ready", "gone"}
NoneLeft == srv.listen = "returned" => \A x \in Cs : ~Up(x)
=============================================================================
