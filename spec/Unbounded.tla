------------------------------ MODULE Unbounded ------------------------------
(* The receive queue (package internal/buffer): a one-place channel the        *)
(* consumer reads, and a backlog that Load moves into it, item by item.         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxPut, D
VARIABLES ch, backlog, disposed, closed, cnt, accepted, out, h
vars == <<ch, backlog, disposed, closed, cnt, accepted, out, h>>

Init == ch = <<>> /\ backlog = <<>> /\ disposed = FALSE /\ closed = FALSE /\ cnt = 0 /\ accepted = <<>> /\ out = <<>> /\ h = <<>>
Put == /\ cnt < MaxPut /\ cnt' = cnt + 1
       /\ IF disposed
          THEN UNCHANGED <<ch, backlog, accepted>> /\ h' = Append(h, [a |-> "put", v |-> cnt + 1, o |-> FALSE])
          ELSE /\ accepted' = Append(accepted, cnt + 1)
               /\ IF backlog = <<>> /\ ch = <<>> THEN ch' = <<cnt + 1>> /\ UNCHANGED backlog
                  ELSE backlog' = Append(backlog, cnt + 1) /\ UNCHANGED ch
               /\ h' = Append(h, [a |-> "put", v |-> cnt + 1, o |-> TRUE])
       /\ UNCHANGED <<disposed, closed, out>>
\* one attempt to read without waiting
Recv == /\ IF ch # <<>> THEN ch' = <<>> /\ out' = Append(out, ch[1]) /\ h' = Append(h, [a |-> "recv", o |-> <<"item", ch[1]>>])
           ELSE UNCHANGED <<ch, out>> /\ h' = Append(h, [a |-> "recv", o |-> IF closed THEN <<"closed", 0>> ELSE <<"empty", 0>>])
        /\ UNCHANGED <<backlog, disposed, closed, cnt, accepted>>
Load == /\ IF backlog # <<>>
           THEN IF ch = <<>> THEN ch' = <<backlog[1]>> /\ backlog' = Tail(backlog) /\ UNCHANGED closed
                ELSE UNCHANGED <<ch, backlog, closed>>
           ELSE UNCHANGED <<ch, backlog>> /\ closed' = (closed \/ disposed)
        /\ h' = Append(h, [a |-> "load", o |-> 0])
        /\ UNCHANGED <<disposed, cnt, accepted, out>>
Dispose == /\ disposed' = TRUE /\ closed' = (closed \/ backlog = <<>>)
           /\ h' = Append(h, [a |-> "dispose", o |-> 0])
           /\ UNCHANGED <<ch, backlog, cnt, accepted, out>>
\* at the end the consumer reads on as it is told to: read, load, read, load, ...
Next == Len(h) < D /\ (Put \/ Recv \/ Load \/ Dispose)
Spec == Init /\ [][Next]_vars
Conserved == accepted = out \o ch \o backlog
ClosedEmpty == closed => backlog = <<>>
\* what the rest of a run by the rules delivers: everything accepted, then (if disposed) the end
Rest == ch \o backlog
Emit == Len(h) = D => PrintT("@" \o ToJson(Append(h, [a |-> "drain", o |-> [items |-> Rest, closed |-> disposed]])))
=============================================================================
