------------------------------ MODULE RobTrace ------------------------------
(***************************************************************************)
(* Recorded cycles of the reorder buffer against Rob.                       *)
(* cycle: <<t, control, broadcast, head, dispatched, completed, retired>>   *)
(*  control   [ready, empty, flush, interrupt, interrupt requested,         *)
(*             redirect index or -1, committed stores pending, front stall] *)
(*  broadcast [exception, ecall, mret, sret, pfi, pfl, pfs, illegal, sfence,*)
(*             fence.i, trap value, pc, csr retired]                        *)
(*  head      [valid, index, incomplete valid, index]                       *)
(*  dispatched[id, parts, kind, pfi, illegal, diag, pc, 8 payload fields]   *)
(*  completed [part, id, pfi, pfl, pfs, flush, branch, mispredicted, taken, *)
(*             diag, result]                                                *)
(*  retired   [id, kind, pfi, illegal, pfl, pfs, flush, mispredicted, taken,*)
(*             diag, pc, 8 payload fields]                                  *)
(*  kind: 0 plain 1 csr 2 ecall 3 mret 4 sret 5 sfence.vma 6 fence.i        *)
(*        7 ebreak 8 fence 9 wfi 10 branch                                  *)
(***************************************************************************)
EXTENDS Rob, TLC, Json, IOUtils, Bitwise
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, q, bad
vars == <<tid, l, q, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Bits(m) == {p \in {1, 2, 4} : m & p # 0}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ q = <<>> /\ bad = <<>>

Flushes(e) == e.kind \in 1..7 \/ e.pf # 0 \/ e.illegal = 1 \/ e.flush = 1
Fences(e) == e.kind \in {5, 6, 8}
Ends(e) == Flushes(e) \/ Fences(e) \/ e.kind = 9
\* pf: 0 none, 1 fetch, 2 load, 3 store; the strongest one wins
Max(a, b) == IF a > b THEN a ELSE b
New(d) == [id |-> d[1], want |-> Bits(d[2]), done |-> {}, kind |-> d[3], pf |-> d[4], illegal |-> d[5],
           diag |-> d[6], pc |-> d[7], pay |-> SubSeq(d, 8, 15), flush |-> 0, mis |-> 0, taken |-> 0, val |-> {},
           flag |-> d[15], last |-> FALSE]
Fault(c) == IF c[5] = 1 THEN 3 ELSE IF c[4] = 1 THEN 2 ELSE IF c[3] = 1 THEN 1 ELSE 0
Apply(w, c) ==
  LET k == PosOf(w, c[2])
      e == w[k]
      f == Fault(c)
      e1 == [e EXCEPT !.pf = Max(@, f), !.val = IF f > 0 THEN @ \cup {c[11]} ELSE @,
                      !.flush = Max(@, c[6]),
                      !.mis = IF c[7] = 1 THEN c[8] ELSE @, !.taken = IF c[7] = 1 THEN c[9] ELSE @,
                      !.diag = IF c[7] = 1 THEN c[10] ELSE @]
      e2 == [e1 EXCEPT !.last = Ends(e1)]
  IN Finish([w EXCEPT ![k] = e2], c[2], c[1])

RECURSIVE Done(_, _, _)
Done(w, c, k) ==
  IF k > Len(c) THEN <<w, <<>>>>
  ELSE IF ~Live(w, c[k][2]) THEN <<w, <<"completed nothing">>>>
  ELSE IF ~MayFinish(w, c[k][2], c[k][1]) THEN <<w, <<"completed twice or unexpected">>>>
  ELSE Done(Apply(w, c[k]), c, k + 1)

Same(e, r) ==
  /\ e.id = r[1] /\ e.kind = r[2] /\ e.illegal = r[4] /\ e.pc = r[11] /\ e.pay = SubSeq(r, 12, 19)
SameDone(e, r) ==
  /\ (e.pf > 0) = (r[3] + r[5] + r[6] > 0) /\ e.flush = r[7]
  /\ (e.kind = 10 => e.mis = r[8] /\ e.taken = r[9] /\ e.diag = r[10])

\* age order must be readable from (flag, index) alone
Older(a, b) == IF a.flag = b.flag THEN a.id < b.id ELSE a.id > b.id
Aged(w) == Len(w) > 1 => /\ Older(w[1], w[Len(w)]) /\ Older(w[Len(w) - 1], w[Len(w)])

RECURSIVE Enter(_, _, _)
Enter(w, d, k) ==
  IF k > Len(d) THEN <<w, <<>>>>
  ELSE IF ~MayEnter(w, d[k][1]) THEN <<w, <<"overwritten">>>>
  ELSE LET n == New(d[k])
           w1 == Append(w, [n EXCEPT !.last = Ends(n)])
       IN IF ~Aged(w1) THEN <<w1, <<"age order">>>> ELSE Enter(w1, d, k + 1)

\* what the last instruction of the group announces
Cast(e, irq) ==
  LET none == [k \in 1..13 |-> 0]
      exc == IF irq \/ e.pf > 0 \/ e.illegal = 1 \/ e.kind = 2 THEN 1 ELSE 0
      base == [none EXCEPT ![1] = exc]
  IN IF irq THEN base
     ELSE IF e.kind = 2 THEN [base EXCEPT ![2] = 1]
     ELSE IF e.kind = 3 THEN [base EXCEPT ![3] = 1]
     ELSE IF e.kind = 4 THEN [base EXCEPT ![4] = 1]
     ELSE IF e.pf = 3 THEN [base EXCEPT ![7] = 1]
     ELSE IF e.pf = 2 THEN [base EXCEPT ![6] = 1]
     ELSE IF e.pf = 1 THEN [base EXCEPT ![5] = 1]
     ELSE IF e.illegal = 1 THEN [base EXCEPT ![8] = 1]
     ELSE IF e.kind = 1 THEN [base EXCEPT ![13] = 1]
     ELSE IF e.kind = 5 THEN [base EXCEPT ![9] = 1]
     ELSE IF e.kind = 6 THEN [base EXCEPT ![10] = 1]
     ELSE base
CastOk(e, irq, b) ==
  /\ \A k \in (1..10) \cup {13} : b[k] = Cast(e, irq)[k]
  /\ b[12] = e.pc
  /\ (~irq /\ e.pf \in {2, 3} /\ e.kind \notin {2, 3, 4} => b[11] \in e.val)
  /\ (~irq /\ e.pf = 1 => b[11] = e.pc)
  /\ (~irq /\ e.pf = 0 /\ e.illegal = 1 => b[11] = e.diag)

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     \E cp \in {Done(q, e[6], 1)} :
     LET c == e[2]
         irq == c[4] = 1
         mis == c[6] >= 0
         r == e[7]
         n == Len(r)
         w == cp[1]
         inq == n <= Len(q)
         order == inq /\ \A k \in 1..n : Same(w[k], r[k])
         lastE == w[n]
         w1 == IF inq THEN RetireN(w, n) ELSE w
         cut == mis /\ c[3] = 0
         w2 == IF cut THEN CutAfter(w1, c[6]) ELSE w1
         en == Enter(w2, e[5], 1)
         w3 == IF c[3] = 1 THEN <<>> ELSE en[1]
         oi == OldestIncomplete(q)
     IN /\ q' = w3
        /\ bad' = Fl(Traces[tid].end # "stuck", "stuck") \o
                  IF cp[2] # <<>> THEN cp[2]
                  ELSE IF ~order THEN <<"retired out of order">>
                  ELSE Fl(irq => (n = 1 /\ c[5] = 1), "interrupt")
                       \o Fl(irq \/ n = 0 \/ MayRetire(w, n), "retired too early or too many")
                       \o Fl(irq \/ \A k \in 1..n : SameDone(w[k], r[k]), "retired fields")
                       \o Fl(~irq /\ n > 0 /\ Fences(lastE) => c[7] = 0, "fence before stores")
                       \o Fl(c[3] = 1 <=> (n > 0 /\ (irq \/ Flushes(lastE))), "flush")
                       \o Fl(c[3] = 1 /\ n > 0 => CastOk(lastE, irq, e[3]), "announcement")
                       \o Fl(c[3] = 0 => \A k \in (1..10) \cup {13} : e[3][k] = 0, "announcement without flush")
                       \o Fl(cut => Live(w1, c[6]), "no such branch")
                       \o Fl(mis => n = 0, "retired during recovery")
                       \o en[2]
                       \o Fl(e[5] # <<>> => c[1] = 1, "entered while full")
                       \o Fl(c[2] = 1 => q = <<>>, "empty")
                       \o Fl(e[4][1] = 1 => q # <<>> /\ q[1].id = e[4][2], "head")
                       \o Fl(e[4][3] = 1 => oi > 0 /\ q[oi].id = e[4][4], "oldest unfinished")
                       \o Fl(e[4][1] = 1 /\ e[4][3] = 0 => oi # 1, "unfinished head not announced")

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, q |-> q,
          e |-> IF l <= Len(Traces[tid].pt) THEN Traces[tid].pt[l] ELSE <<>>]
=============================================================================
