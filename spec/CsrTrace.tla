------------------------------ MODULE CsrTrace ------------------------------
(***************************************************************************)
(* Cycles recorded from the CSR and trap unit.                              *)
(* <<exec, event, lines, request, read value, target, status out,           *)
(*   registers after, privilege after, lines left>>                          *)
(***************************************************************************)
EXTENDS CsrUnit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, u, bad
vars == <<tid, l, u, bad>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ u = [s |-> [pc |-> 0, c |-> Traces[tid].c, p |-> Traces[tid].p], w |-> <<>>]
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} :
           \E x \in {[e[1] EXCEPT ![2] = CsrIdx(e[1][2])]} :
           \E n \in {CycleOf(u, x, e[2], e[3])} :
             /\ u' = n
             /\ bad' = Fl((e[4] = 1) = Requested(u.s), "interrupt request")
                    \o Fl(x[1] = 0 \/ x[4] = 0 \/ e[5] = u.s.c[x[2]], "value read")
                    \o Fl(~Redirects(e[2][1]) \/ e[6] = Retire(u, e[2][1], e[2][2], e[2][3]).pc, "target of a trap or return")
                    \o Fl(e[7] = <<u.s.c[mstatus], u.s.c[sstatus], u.s.c[satp], u.s.p>>, "status shown to the others")
                    \o Fl(e[8] = n.s.c, "registers")
                    \o Fl(e[9] = n.s.p, "privilege")
                    \o Fl(e[10] = 0, "an interrupt line stays latched")
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, u |-> u,
          at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
