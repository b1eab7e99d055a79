------------------------------ MODULE FloatTrace ------------------------------
(***************************************************************************)
(* Single-precision results recorded from the execution unit, from the      *)
(* gate-level adder and multiplier and from the interpreter.                *)
(* <<word, a, b, c, [unit], [gates], [interpreter]>>                         *)
(***************************************************************************)
EXTENDS Float32, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} : \E r \in {FloatOp(e[1], e[2], e[3], e[4])} :
             bad' = Fl(e[5] = <<>> \/ e[5] = <<r>>, "execution unit")
                 \o Fl(e[6] = <<>> \/ e[6] = <<r>>, "gate-level unit")
                 \o Fl(e[7] = <<r>>, "interpreter")
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad,
          at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>,
          want |-> IF l > 1 THEN LET e == Traces[tid].v[l - 1] IN FloatOp(e[1], e[2], e[3], e[4]) ELSE 0]
=============================================================================
