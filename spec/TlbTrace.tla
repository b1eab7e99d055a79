------------------------------ MODULE TlbTrace ------------------------------
(***************************************************************************)
(* Runs of a translation unit.  m: the page tables; v: what happened,       *)
(*   <<0, addr, word>>               a table word is written, then a fence  *)
(*   <<1, satp, privilege, mstatus>> the context changes                    *)
(*   <<2, type, va, ok, pa>>         an access is answered                  *)
(*   <<3, type, va>>                 an access is never answered            *)
(*   <<4, type, va>>                 an answer names another request        *)
(* The answer is the walk of the tables as they are, whatever was cached,   *)
(* whatever was cancelled and whichever context asked before.               *)
(***************************************************************************)
EXTENDS RV32, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, m, c, bad
vars == <<tid, l, m, c, bad>>
Mem(q) == [b |-> <<>>, o |-> [a \in {WIdx(q[i][1]) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : WIdx(q[i][1]) = a][2]]]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ m = Mem(Traces[tid].m) /\ c = <<0, 0, 0>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Want(type, va) ==
  LET ep == IF type # 0 /\ Bit(c[3], 17) THEN Mpp(c[3]) ELSE c[2]
  IN IF c[1] >= 0 \/ ep = 3 THEN <<TRUE, va>>
     ELSE Walk(m, c[1] % 4194304, va, type, ep, Bit(c[3], 18), Bit(c[3], 19))
Ev(e) ==
  CASE e[1] = 0 -> m' = WrI(m, WIdx(e[2]), e[3]) /\ UNCHANGED <<c, bad>>
    [] e[1] = 1 -> c' = <<e[2], e[3], e[4]>> /\ UNCHANGED <<m, bad>>
    [] e[1] = 2 -> /\ \E w \in {Want(e[2], e[3])} :
                        bad' = Fl((e[4] = 1) = w[1], "fault") \o Fl(e[4] = 0 \/ ~w[1] \/ e[5] = w[2], "address")
                   /\ UNCHANGED <<m, c>>
    [] e[1] = 3 -> bad' = <<"never answered">> /\ UNCHANGED <<m, c>>
    [] OTHER -> bad' = <<"answer to another request">> /\ UNCHANGED <<m, c>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} : Ev(e)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, c |-> c,
          at |-> IF l > 1 /\ l - 1 <= Len(Traces[tid].v) THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
