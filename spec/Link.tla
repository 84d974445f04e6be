--------------------------------- MODULE Link ---------------------------------
(* Programs that serve each other over a network. A server listens on an address;    *)
(* clients join it, naming the operations they serve; from then on each side may ask *)
(* the other, by name, until the client leaves or the server stops. Whatever is asked *)
(* of a side that is gone fails, and so does what was pending; nobody else notices.   *)
(* Strangers, who connect and do not speak the protocol, are noticed by nobody.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients,
          Forms,            \* connect: everything by rsocket.Connect; client: by hand
          Tables,           \* own: the names in use; swap: a and b exchanged
          Kinds, Ops, Dirs,
          Strangers,
          D
VARIABLES srv,              \* TRUE: somebody listens
          c,                \* per client: where it is, and how it joined last
          held,             \* requests that are pending: <<client, direction>> -> kind
          h
vars == <<srv, c, held, h>>
Init == srv = FALSE /\ c = [i \in Clients |-> [st |-> "new", f |-> "", t |-> ""]] /\ held = [x \in Clients \X Dirs |-> ""] /\ h = <<>>
Log(a, r) == h' = Append(h, [a |-> a] @@ r)
Same == UNCHANGED <<srv, c, held>>
Up(i) == c[i].st = "up"
\* what becomes pending on the clients of S fails
Lost(S) == {x \in Clients \X Dirs : held[x] # "" /\ x[1] \in S}
Fails(S) == {<<x[1], x[2]>> : x \in Lost(S)}
Without(S) == [x \in Clients \X Dirs |-> IF x[1] \in S THEN "" ELSE held[x]]
Gone(S) == [i \in Clients |-> IF i \in S THEN [c[i] EXCEPT !.st = "gone"] ELSE c[i]]
Listen ==
  IF srv THEN Log("listen", [o |-> "refused"]) /\ Same                       \* the address is taken
  ELSE Log("listen", [o |-> "on"]) /\ srv' = TRUE /\ UNCHANGED <<c, held>>
Join(i, f, t) ==
  /\ ~Up(i) /\ (f = "connect" => t = "own")
  /\ IF srv THEN /\ Log("join", [i |-> i, f |-> f, t |-> t, o |-> "up"])
                 /\ c' = [c EXCEPT ![i] = [st |-> "up", f |-> f, t |-> t]] /\ UNCHANGED <<srv, held>>
     ELSE Log("join", [i |-> i, f |-> f, t |-> t, o |-> "refused"]) /\ Same
\* the operation that answers when the other side is asked for op
Answers(i, d, op) == IF d = "down" /\ c[i].t = "swap" THEN (IF op = "a" THEN "b" ELSE "a") ELSE op
Ask(i, d, k, op) ==
  /\ c[i].st # "new"
  /\ Log("ask", [i |-> i, d |-> d, k |-> k, op |-> op, o |-> IF Up(i) THEN Answers(i, d, op) ELSE "error"])
  /\ Same
Hold(i, d, k) ==
  /\ Up(i) /\ held[<<i, d>>] = "" /\ k # "fnf"
  /\ Log("hold", [i |-> i, d |-> d, k |-> k, op |-> "a"]) /\ held' = [held EXCEPT ![<<i, d>>] = k] /\ UNCHANGED <<srv, c>>
Answer(i, d) ==
  /\ held[<<i, d>>] # ""
  /\ Log("answer", [i |-> i, d |-> d, k |-> held[<<i, d>>], o |-> Answers(i, d, "a")]) /\ held' = [held EXCEPT ![<<i, d>>] = ""] /\ UNCHANGED <<srv, c>>
Leave(i) ==
  /\ Up(i) /\ c[i].f = "client"
  /\ \E how \in {"close", "ctx"} : Log("leave", [i |-> i, how |-> how, fails |-> Fails({i})])
  /\ c' = Gone({i}) /\ held' = Without({i}) /\ UNCHANGED srv
Stop ==
  /\ srv
  /\ LET S == {i \in Clients : Up(i)} IN
     /\ \E how \in {"close", "ctx"} : Log("stop", [how |-> how, ends |-> S, fails |-> Fails(S)])
     /\ c' = Gone(S) /\ held' = Without(S) /\ srv' = FALSE
Stranger == srv /\ \E w \in Strangers : Log("stranger", [w |-> w]) /\ Same
Step ==
  /\ Len(h) < D
  /\ \/ Listen \/ Stop \/ Stranger
     \/ \E i \in Clients : Leave(i) \/ (\E f \in Forms, t \in Tables : Join(i, f, t))
                           \/ \E d \in Dirs : Answer(i, d) \/ \E k \in Kinds : Hold(i, d, k) \/ \E op \in Ops : Ask(i, d, k, op)
Next == Step
Spec == Init /\ [][Next]_vars
Cover == Step /\ PrintT("@" \o ToJson(h'))
CoverSpec == Init /\ [][Cover]_vars
View == <<srv, c, held>>
Emit == Len(h) = D => PrintT("@" \o ToJson(h))
\* nobody is joined to nobody, and nothing is pending without a link
Joined == \A i \in Clients : Up(i) => srv
Pending == \A x \in Clients \X Dirs : held[x] # "" => Up(x[1])
\* whoever leaves takes nobody else along
Alone == [][srv /\ srv' => Cardinality({i \in Clients : Up(i) /\ c'[i].st = "gone"}) <= 1]_vars
\* pending requests end only by their answer or with their link
Ends == [][\A x \in Clients \X Dirs : held[x] # "" /\ held'[x] = "" => c'[x[1]].st = "gone" \/ h'[Len(h')].a = "answer"]_vars
===============================================================================
