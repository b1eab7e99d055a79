------------------------------- MODULE CsrUnit -------------------------------
(***************************************************************************)
(* The CSR and trap unit of the core.  A CSR instruction leaves its write   *)
(* behind when it executes; the write takes effect when the instruction     *)
(* retires and is forgotten when anything empties the pipeline.  Traps,     *)
(* returns and interrupts act on the architectural state as in RV32.        *)
(*   u == [s, w]:  s == [pc, c, p], w == <<>> or <<register, command, data>> *)
(***************************************************************************)
EXTENDS RV32

Rest(s, pc) == [s EXCEPT !.pc = pc]
Effect(old, cmd, data) == CASE cmd = 2 -> WOr(old, data) [] cmd = 3 -> AndNot(old, data) [] OTHER -> data
Requested(s) == IntSel(s, s.c[mip])[1] # 0
Retire(u, ev, pc, val) ==
  LET s == Rest(u.s, pc) IN
  CASE ev = 1 -> IF u.w = <<>> THEN s
                 ELSE [s EXCEPT !.c = CsrWrite(s.c, u.w[1], Effect(s.c[u.w[1]], u.w[2], u.w[3]))]
    [] ev = 2 -> Exc(s, CASE s.p = 0 -> 8 [] s.p = 1 -> 9 [] OTHER -> 11, 0)
    [] ev = 3 -> DoMret(s)
    [] ev = 4 -> DoSret(s)
    [] ev = 5 -> Exc(s, 12, val)
    [] ev = 6 -> Exc(s, 13, val)
    [] ev = 7 -> Exc(s, 15, val)
    [] ev = 8 -> Exc(s, 2, val)
    [] ev = 9 -> TrapInt(s, IntSel(s, s.c[mip]))
    [] OTHER -> s
Redirects(ev) == ev \in 2..9
\* the interrupt lines; j == <<ext valid, ext, timer valid, timer>>
Line(v, b, valid, on) == IF valid = 0 THEN v ELSE IF on = 1 THEN WOr(v, b) ELSE AndNot(v, b)
Inject(s, j) == IF j[1] = 0 /\ j[3] = 0 THEN s
                ELSE SetMip(s, Line(Line(s.c[mip], 2048, j[1], j[2]), 128, j[3], j[4]))
\* x == <<executes, register, command, read, write, data>>, e == <<event, pc, value>>
CycleOf(u, x, e, j) ==
  [s |-> Inject(Retire(u, e[1], e[2], e[3]), j),
   w |-> IF e[1] # 0 THEN <<>> ELSE IF x[1] = 1 /\ x[5] = 1 THEN <<x[2], x[3], x[6]>> ELSE u.w]
=============================================================================
