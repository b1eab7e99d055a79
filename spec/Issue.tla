-------------------------------- MODULE Issue -------------------------------
(***************************************************************************)
(* Scheduling of micro-operations between dispatch and execution.           *)
(*   q     live instructions in program order, [id, dest]                   *)
(*   pend  micro-operations queued and not yet issued, [id, op, s1, s2, ..] *)
(*   val   physical register -> <<state, value>> with state                 *)
(*         "free"    no live instruction owns it (or its value is settled   *)
(*                   but never read)                                        *)
(*         "wait"    its producer has been dispatched but not issued        *)
(*         "run"     its producer has been issued                           *)
(*         "known"   the value has been produced                            *)
(* A micro-operation may issue once, while its instruction is live, when    *)
(* every source it uses is known, and then sees exactly the known values.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ids(q) == {q[k].id : k \in 1..Len(q)}
Known(val, p) == p < 0 \/ p = 0 \/ val[p][1] = "known"
ValueOf(val, p) == IF p <= 0 THEN 0 ELSE val[p][2]
MayIssue(val, u) == Known(val, u.s1) /\ Known(val, u.s2)

Keep(q, id) == LET K == {k \in 1..Len(q) : q[k].id = id}
               IN IF K = {} THEN q ELSE SubSeq(q, 1, CHOOSE k \in K : TRUE)
=============================================================================
