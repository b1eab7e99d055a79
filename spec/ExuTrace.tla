------------------------------- MODULE ExuTrace -------------------------------
(***************************************************************************)
(* Decode, split into operations, register read and execution driven        *)
(* directly: what each unit reports, when, and with which value.            *)
(*  ins: <<word, pc, dest, src1, src2, tag, rob index, rob flag, predicted  *)
(*        taken, predicted next, value answered by memory, operations>>     *)
(*  per cycle: <<inputs, issued, memory answers, forwarded, completed,      *)
(*        memory requests, woken, ready, csr request, redirect>>            *)
(* Operation codes: 0 jump 1 alu 2 branch 3 load 4 store address 5 store    *)
(* data 6 csr 7 multiply 8 divide 9 float 10 other.                         *)
(***************************************************************************)
EXTENDS RV32, Float32, Exu, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS MulLat, DivLat, FAddLat, FMulLat, FDivLat, FCvtLat

\* <<port, group>>
Units == {<<0, 7>>, <<0, 1>>, <<0, 6>>, <<1, 8>>, <<1, 1>>, <<1, 9>>, <<2, 3>>, <<3, 3>>, <<4, 4>>, <<5, 4>>, <<6, 5>>, <<7, 5>>, <<8, 2>>, <<9, 2>>}
Group(c) == IF c = 10 THEN 1 ELSE IF c = 0 THEN 2 ELSE c
CapOf(u) == IF u[2] = 7 THEN 2 ELSE 1
OnPort(p) == {u \in Units : u[1] = p}

VARIABLES tid, l, us, rf, lw, bad
vars == <<tid, l, us, rf, lw, bad>>
\* rf: per register [ok, v, m]: a produced value and what it is speculative on; lw: loads written back last cycle
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ us = [u \in Units |-> Idle]
        /\ rf = [k \in 1..Len(Traces[tid].r) |-> [ok |-> TRUE, v |-> Traces[tid].r[k], m |-> 0]]
        /\ lw = {} /\ bad = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
B01(b) == IF b THEN 1 ELSE 0

\* the operations an instruction is split into
Split(w) ==
  LET op == Opc(w)  f5 == F7(w) \div 4 IN
  CASE op = 51 /\ F7(w) = 1 -> IF F3(w) >= 4 THEN <<8>> ELSE <<7>>
    [] op \in {19, 51, 55, 23} -> <<1>>
    [] op \in {111, 103} -> <<1, 0>>
    [] op = 99 -> <<2>>
    [] op = 3 -> <<3>>
    [] op = 35 -> <<4, 5>>
    [] op = 47 -> IF f5 = 2 THEN <<3>> ELSE IF f5 = 3 THEN <<4, 5>> ELSE <<3, 4, 5>>
    [] op = 83 -> <<9>>
    [] op = 115 /\ F3(w) # 0 -> <<6>>
    [] OTHER -> <<10>>
IsAmo(w) == Opc(w) = 47
\* the sources an operation computes from
NeedsA(w, c) == CASE c = 1 -> Opc(w) \in {19, 51}
                  [] c = 0 -> Opc(w) = 103
                  [] c = 5 -> IsAmo(w) /\ F7(w) \div 4 \notin {1, 3}
                  [] c = 6 -> F3(w) < 4
                  [] OTHER -> c \in {2, 3, 4, 7, 8, 9}
NeedsB(w, c) == CASE c = 1 -> Opc(w) = 51
                  [] c = 9 -> F7(w) \notin {96, 104, 44, 112}
                  [] OTHER -> c \in {2, 5, 7, 8}
WritesRd(w, c) ==
  CASE c \in {1, 6, 7, 8, 9} -> Rdx(w) # 0
    [] c = 3 -> Rdx(w) # 0 \/ (IsAmo(w) /\ F7(w) \div 4 # 2)
    [] OTHER -> FALSE
LatI(w, c) ==
  CASE c = 7 -> MulLat
    [] c = 8 -> DivLat + 1
    [] c = 9 -> LET f == F7(w) \div 4
                IN 1 + (CASE f \in {0, 1} -> FAddLat [] f = 2 -> FMulLat [] f \in {3, 11} -> FDivLat
                        [] F7(w) \in {96, 104} -> FCvtLat [] OTHER -> FAddLat)
    [] OTHER -> 1

\* result of an operation c of instruction i on operands a, b
Result(i, c, a, b) ==
  LET w == i[1]  op == Opc(w) IN
  CASE c = 1 -> CASE op = 55 -> ImmU(w)
                  [] op = 23 -> Add(i[2], ImmU(w))
                  [] op \in {111, 103} -> Add(i[2], 4)
                  [] op = 19 -> AluImm(w, a)[2]
                  [] OTHER -> AluReg(w, a, b)[2]
    [] c \in {7, 8} -> MulDiv(F3(w), a, b)
    [] c = 9 -> FloatOp(w, a, b, 0)
    [] c = 3 -> Add(a, IF IsAmo(w) THEN 0 ELSE ImmI(w))
    [] c = 4 -> Add(a, IF IsAmo(w) THEN 0 ELSE ImmS(w))
    [] c = 5 -> IF ~IsAmo(w) \/ F7(w) \div 4 = 3 THEN b ELSE AmoVal(F7(w) \div 4, a, b)
    [] OTHER -> 0
BrTaken(i, c, a, b) == c = 0 \/ Taken(F3(i[1]), a, b)
BrTarget(i, c, a, b) ==
  CASE Opc(i[1]) = 111 -> Add(i[2], ImmJ(i[1]))
    [] Opc(i[1]) = 103 -> LET s == Add(a, ImmI(i[1])) IN s - (s % 2)
    [] OTHER -> IF Taken(F3(i[1]), a, b) THEN Add(i[2], ImmB(i[1])) ELSE Add(i[2], 4)
Mispredicted(i, c, a, b) ==
  IF BrTaken(i, c, a, b) THEN i[9] = 0 \/ i[10] # BrTarget(i, c, a, b) ELSE i[9] = 1

Step1(e, ins) ==
  LET fl == e[1][1] = 1  kill == e[1][2]  clear == e[1][3]
      LatOp(o) == LatI(ins[o.i + 1][1], o.c)
  IN \E s1 \in {[u \in Units |-> IF us[u] = Idle THEN Idle ELSE Start(Sweep(us[u], fl, kill, clear), l, LatOp)]} :
     \E fin \in {{u \in Units : Finished(s1[u], l)}} :
     \* the operation each port with a finished unit reports
     LET op(u) == Out(s1[u])
         I(u) == ins[op(u).i + 1]
         res(u) == IF op(u).c = 6 THEN e[1][4] ELSE Result(I(u), op(u).c, op(u).a, op(u).b)
         okRob(u, r) == /\ r[2] = op(u).c /\ r[3] = I(u)[7]
                        /\ (op(u).c \in {1, 5, 7, 8, 9} \/ (op(u).c = 6 /\ op(u).den) => r[4] = res(u))
                        /\ (op(u).c \in {0, 2} =>
                              /\ r[5] = B01(Mispredicted(I(u), op(u).c, op(u).a, op(u).b))
                              /\ r[6] = B01(BrTaken(I(u), op(u).c, op(u).a, op(u).b))
                              /\ r[7] = BrTarget(I(u), op(u).c, op(u).a, op(u).b))
                        /\ (op(u).c \notin {0, 2} => r[5] = 0)
                        /\ r[8] = 0
         robAt(p) == SelectSeq(e[5], LAMBDA r : r[1] = p)
         lsuAt(p) == SelectSeq(e[6], LAMBDA r : r[1] = p - 2)
         okLsu(u, r) == LET i == I(u) IN
                        /\ r[2] = op(u).c /\ r[3] = i[7] /\ r[4] = res(u) /\ r[5] = F3(i[1])
                        /\ r[6] = (i[7] % 16) + 16 * ((i[7] \div 16) % 2) + 32 * ((i[7] \div 2) % 16) + 512 * i[8]
                        /\ (op(u).c = 3 => r[7] = B01(WritesRd(i[1], 3)) /\ (r[7] = 1 => r[8] = i[3]))
                        /\ (op(u).c = 4 /\ IsAmo(i[1]) /\ F7(i[1]) \div 4 = 3 /\ Rdx(i[1]) # 0 => r[7] = 1 /\ r[8] = i[3])
                        /\ r[9] = op(u).mask /\ r[10] = B01(IsAmo(i[1]))
         Won(p) == {u \in OnPort(p) \cap fin : IF p \in 2..5 THEN \E r \in {x : x \in {lsuAt(p)[k] : k \in DOMAIN lsuAt(p)}} : okLsu(u, r)
                                               ELSE /\ Len(robAt(p)) = 1 /\ okRob(u, robAt(p)[1])
                                                    /\ (p \in 6..7 => \E k \in DOMAIN lsuAt(p) : okLsu(u, lsuAt(p)[k]))}
     IN \E win \in {[p \in 0..9 |-> LET w == Won(p) IN IF w = {} THEN <<>> ELSE <<CHOOSE u \in w : TRUE>>]} :
        \E s2 \in {[u \in Units |-> IF win[u[1]] = <<u>> THEN Leave(s1[u]) ELSE s1[u]]} :
        LET \* forwarded values: everything finished that computes a register
            val == {u \in fin : op(u).den /\ op(u).c \in {1, 7, 8, 9}}
            fwd == {<<op(u).c, 1, I(u)[3], res(u)>> : u \in val}
            rfA == [k \in DOMAIN rf |-> IF \E u \in val : I(u)[3] = k - 1
                                        THEN LET u == CHOOSE u \in val : I(u)[3] = k - 1 IN [ok |-> TRUE, v |-> res(u), m |-> op(u).mask]
                                        ELSE rf[k]]
            csrw == {u \in fin : op(u).c = 6 /\ op(u).den /\ win[u[1]] = <<u>>}
            iss == e[2]
            newop(x) == [i |-> x[3], c |-> x[2], mask |-> (x[4] | clear) - clear, a |-> x[9], b |-> x[10], den |-> x[11] = 1, d |-> x[12], id |-> <<x[3], x[2]>>]
            issOk(x) == LET i == ins[x[3] + 1]  u == <<x[1], Group(x[2])>>  c == x[2] IN
                        /\ u \in Units /\ Ready(s2[u], CapOf(u))
                        /\ \E k \in DOMAIN i[12] : i[12][k] = c
                        /\ i[12] = Split(i[1])
                        \* the sources the operation needs, and their values
                        /\ x[5] = 1 => x[9] = (IF x[6] = 0 THEN 0 ELSE rfA[x[6] + 1].v) /\ rfA[x[6] + 1].ok
                        /\ x[7] = 1 => x[10] = (IF x[8] = 0 THEN 0 ELSE rfA[x[8] + 1].v) /\ rfA[x[8] + 1].ok
                        /\ (NeedsA(i[1], c) => x[5] = 1 /\ x[6] = (IF c = 5 THEN i[3] ELSE IF Rs1(i[1]) = 0 THEN 0 ELSE i[4]))
                        /\ (NeedsB(i[1], c) => x[7] = 1 /\ x[8] = (IF Rs2(i[1]) = 0 THEN 0 ELSE i[5]))
                        /\ (c \in {1, 6, 7, 8, 9} => x[11] = B01(WritesRd(i[1], c)) /\ (x[11] = 1 => x[12] = i[3]))
            woken == {x[1] : x \in {y \in lw : ~Dies([mask |-> y[2]], FALSE, kill)}}
            rdy(p) == {g \in 0..10 : (e[8][p + 1] \div P2[g + 1]) % 2 = 1}
            brs == {u \in fin : u[2] = 2}
            mis == {u \in brs : Mispredicted(I(u), op(u).c, op(u).a, op(u).b)}
            old == CHOOSE u \in mis : \A v \in mis : v = u \/ Older(I(u)[8], I(u)[7], I(v)[8], I(v)[7])
            tags == {I(u)[6] : u \in brs}
            csrop == {u \in Units : u[2] = 6 /\ s1[u].pipe # <<>>}
            dies == UNION {{us[u].wait[k] : k \in DOMAIN us[u].wait} \cup {us[u].pipe[k].op : k \in DOMAIN us[u].pipe} : u \in Units}
            lost == IF fl THEN {o.d : o \in {o \in dies : o.den}} \cup {a[4] : a \in {x \in {e[3][k] : k \in DOMAIN e[3]} : x[3] = 1}} ELSE {}
            rfB == [k \in DOMAIN rf |->
                     IF \E j \in DOMAIN e[3] : e[3][j][3] = 1 /\ e[3][j][4] = k - 1
                     THEN LET j == CHOOSE j \in DOMAIN e[3] : e[3][j][3] = 1 /\ e[3][j][4] = k - 1 IN [rfA[k] EXCEPT !.ok = TRUE, !.v = e[3][j][5]]
                     ELSE IF \E u \in csrw : I(u)[3] = k - 1 THEN [ok |-> TRUE, v |-> e[1][4], m |-> op(CHOOSE u \in csrw : I(u)[3] = k - 1).mask]
                     ELSE rfA[k]]
            isd == {iss[k] : k \in DOMAIN iss}
            rfC == [k \in DOMAIN rf |->
                     IF k = 1 THEN rf[1] ELSE IF k - 1 \in lost \/ (rfB[k].m & kill) # 0 THEN [ok |-> FALSE, v |-> 0, m |-> 0]
                     ELSE IF \E x \in isd : x[11] = 1 /\ x[12] = k - 1 /\ k > 1
                     THEN [ok |-> FALSE, v |-> 0, m |-> LET x == CHOOSE x \in isd : x[11] = 1 /\ x[12] = k - 1 IN (x[4] | clear) - clear]
                     ELSE [rfB[k] EXCEPT !.m = (@ | clear) - clear]]
            lsuRob == {r \in {e[5][k] : k \in DOMAIN e[5]} : r[1] \in 2..5}
            wantRob == {<<a[1], IF a[1] \in 2..3 THEN 3 ELSE 4, ins[a[2] + 1][7], a[5], ins[a[2] + 1][10],
                          IF a[7] = 1 THEN a[5] % 2 ELSE 2 * (a[5] % 2)>> :
                          a \in {x \in {e[3][k] : k \in DOMAIN e[3]} : ~Dies([mask |-> x[6]], fl, kill)}}
        IN /\ us' = [u \in Units |-> IF \E x \in isd : <<x[1], Group(x[2])>> = u
                                    THEN Accept(s2[u], newop(CHOOSE x \in isd : <<x[1], Group(x[2])>> = u)) ELSE s2[u]]
           /\ rf' = rfC
           /\ lw' = IF fl THEN {} ELSE {<<a[4], (a[6] | clear) - clear>> : a \in {x \in {e[3][k] : k \in DOMAIN e[3]} :
                                          x[3] = 1 /\ x[1] \in 2..3 /\ (x[6] & kill) = 0}}
           /\ bad' = Fl(\A p \in 0..9 : (OnPort(p) \cap fin = {}) = (win[p] = <<>>), "reported operation")
                  \o Fl(\A p \in {0, 1, 6, 7, 8, 9} : Len(robAt(p)) = Len(win[p]), "completions of a port")
                  \o Fl(\A p \in 2..7 : Len(lsuAt(p)) = Len(win[p]), "memory requests of a port")
                  \o Fl({<<r[1], r[2], r[3], r[4], r[7], r[8]>> : r \in lsuRob} = wantRob, "memory completions")
                  \o Fl({b \in {e[4][k] : k \in DOMAIN e[4]} : b[2] = 1 /\ b[1] \notin {3, 4, 5, 6}} = fwd, "forwarded values")
                  \o Fl(\A k \in DOMAIN iss : issOk(iss[k]), "issued operation")
                  \o Fl({e[7][k] : k \in DOMAIN e[7]} = woken, "woken registers")
                  \o Fl(\A p \in 0..9 : rdy(p) = {u[2] : u \in {v \in OnPort(p) : ~fl /\ Ready(s2[v], CapOf(v))}}, "ready units")
                  \o Fl(IF csrop = {} THEN e[9][1] = 0
                        ELSE LET o == s1[<<0, 6>>].pipe[1].op  i == ins[o.i + 1]  w == i[1]  rw == F3(w) % 4 = 1
                             IN /\ e[9][1] = B01(rw \/ Rs1(w) # 0)
                                /\ (~rw \/ Rdx(w) # 0 => e[9][2] = 1)
                                /\ e[9][3] = ImmI(w) % 4096 /\ e[9][4] = F3(w) % 4
                                /\ e[9][5] = (IF F3(w) >= 4 THEN Rs1(w) ELSE o.a), "csr request")
                  \o Fl(IF mis = {} THEN e[10][1] = 0
                        ELSE /\ e[10][1] = 1 /\ e[10][2] = BrTarget(I(old), op(old).c, op(old).a, op(old).b)
                             /\ e[10][3] = I(old)[7] /\ e[10][4] = I(old)[6], "redirect")
                  \o Fl({t \in 0..15 : (e[10][6] \div P2[t + 1]) % 2 = 1} = tags, "resolved tags")
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E t \in {Traces[tid]} : Step1(t.v[l], t.ins)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, us |-> [u \in {v \in Units : us[v] # Idle} |-> us[u]], at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
