--------------------------------- MODULE Exu ---------------------------------
(***************************************************************************)
(* Execution units.  An accepted operation starts in the next cycle, is     *)
(* finished a fixed number of cycles later, and leaves when its port        *)
(* reports it; a unit holds at most `cap' operations and works in order.    *)
(* Operations are [id, mask, ..]; a kill removes those whose mask meets the *)
(* kill mask, a flush removes everything, resolved tags leave the masks.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

Idle == [wait |-> <<>>, pipe |-> <<>>]
Dies(op, fl, kill) == fl \/ (op.mask & kill) # 0
Clear(op, clear) == [op EXCEPT !.mask = (op.mask | clear) - clear]
Sweep(u, fl, kill, clear) ==
  LET w == SelectSeq(u.wait, LAMBDA o : ~Dies(o, fl, kill))
      p == SelectSeq(u.pipe, LAMBDA x : ~Dies(x.op, fl, kill))
  IN [wait |-> [k \in DOMAIN w |-> Clear(w[k], clear)],
      pipe |-> [k \in DOMAIN p |-> [p[k] EXCEPT !.op = Clear(p[k].op, clear)]]]
\* lat(op): cycles from start to finish, the first included
Start(u, now, lat(_)) ==
  IF u.wait = <<>> THEN u
  ELSE [wait |-> <<>>, pipe |-> Append(u.pipe, [op |-> u.wait[1], due |-> now + lat(u.wait[1]) - 1])]
Finished(u, now) == u.pipe # <<>> /\ u.pipe[1].due <= now
Out(u) == u.pipe[1].op
Leave(u) == [u EXCEPT !.pipe = Tail(@)]
Ready(u, cap) == u.wait = <<>> /\ Len(u.pipe) < cap
Accept(u, op) == [u EXCEPT !.wait = <<op>>]
InUnit(u) == {u.wait[k].id : k \in DOMAIN u.wait} \cup {u.pipe[k].op.id : k \in DOMAIN u.pipe}

\* age in the reorder buffer: index and wrap flag
Older(f1, i1, f2, i2) == IF f1 = f2 THEN i1 < i2 ELSE i1 > i2
=============================================================================
