----------------------------- MODULE SockScript -----------------------------
(* What may happen to a connection from outside: chunks of frames (with the end of *)
(* the stream or a read error behind the last), a blocked handler going on, the     *)
(* connection closed from here, its context cancelled.  Scripts for SockRun.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Roles, Items, Ends, MaxChunk, D
VARIABLES role, h, n, closed, gone, fin
vars == <<role, h, n, closed, gone, fin>>
\* n: frames so far; gone: the stream has ended; closed: close or cancel has happened; fin: nothing can come of more
Init == role \in Roles /\ h = <<[a |-> "role", r |-> role]>> /\ n = 0 /\ closed = {} /\ gone = FALSE /\ fin = 0
Chunks == UNION {[1..k -> Items] : k \in 0..MaxChunk}
Invalid == {"badsetup", "unknown", "short", "zero"}
\* the chunk that certainly ends the run
Fatal(c, e) == \/ e # "" \/ \E i \in 1..Len(c) : c[i] \in Invalid
               \/ role = "server" /\ n = 0 /\ Len(c) > 0 /\ c[1] # "setup" /\ c[1] # "setupblock"
Go(x, k) == h' = Append(h, x) /\ n' = n + k /\ role' = role
Put == /\ ~gone
       /\ \E c \in Chunks, e \in Ends : /\ Len(c) > 0 \/ e # ""
                                        /\ Go([a |-> "put", items |-> c, end |-> e], Len(c))
                                        /\ gone' = (e # "") /\ closed' = closed /\ fin' = IF fin > 0 \/ Fatal(c, e) THEN fin + 1 ELSE 0
Release == \E w \in {"ok", "fail"} : /\ \E i \in 2..Len(h) : h[i].a = "put" /\ \E j \in 1..Len(h[i].items) : h[i].items[j] \in {"block", "setupblock"}
                                     /\ Go([a |-> "release", w |-> w], 0) /\ fin' = fin /\ UNCHANGED <<closed, gone>>
Out == \E w \in {"close", "ctx"} : /\ Go([a |-> w], 0) /\ closed' = closed \cup {w} /\ gone' = gone
                                   /\ w \notin closed \/ w = "close"
                                   /\ fin' = fin + 1
Next == Len(h) <= D /\ fin < 3 /\ (Put \/ Release \/ Out)
Spec == Init /\ [][Next]_vars
Emit == (Len(h) > D \/ fin = 3) => PrintT("@" \o ToJson(h))
=============================================================================
