---------------------------- MODULE IcacheTrace ----------------------------
(***************************************************************************)
(* Runs of the instruction cache.  m: the page tables; v: what happened,    *)
(*   <<0, addr, word>>               a table word is written, then a fence  *)
(*   <<1, satp, privilege, mstatus>> the context changes (with a redirect)  *)
(*   <<2, addr, word>>               a code word is written                 *)
(*   <<3>>                           an instruction fence                   *)
(*   <<4, pc>>                       a fetch is accepted                    *)
(*   <<5, pc, valid, fault, words>>  a fetch is answered                    *)
(*   <<6>>                           a redirect                             *)
(*   <<7, n>>                        the cache broke a rule of its ports    *)
(* One fetch is under way at a time.  It is answered once unless redirected *)
(* with the words from its address to the end of the line, at most one      *)
(* block, or with a fault if the walk of the tables says so.  The value of  *)
(* a word is one it had when the last instruction fence ended or later.     *)
(***************************************************************************)
EXTENDS RV32, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Block == 4
LineWords == 16
Nop == 19
VARIABLES tid, l, m, c, code, req, bad
vars == <<tid, l, m, c, code, req, bad>>
Mem(q) == [b |-> <<>>, o |-> [a \in {WIdx(q[i][1]) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : WIdx(q[i][1]) = a][2]]]
\* code: word index -> <<values it may be fetched with>>, the current one last; zero where nothing was written
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ m = Mem(Traces[tid].m) /\ c = <<0, 0, 0>> /\ code = <<>> /\ req = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
May(i) == IF i \in DOMAIN code THEN code[i] ELSE <<0>>
Put(f, i, v) == [a \in DOMAIN f \cup {i} |-> IF a = i THEN v ELSE f[a]]
Where(pc) == IF c[1] >= 0 \/ c[2] = 3 THEN <<TRUE, pc>>
             ELSE Walk(m, c[1] % 4194304, pc, 0, c[2], Bit(c[3], 18), Bit(c[3], 19))
\* how many words from pc to the end of its line, and the mask of that many slots
Count(pc) == LET k == LineWords - ((pc % 64) \div 4) IN IF k < Block THEN k ELSE Block
Mask(n) == 2 ^ n - 1
Answer(e) ==
  \E w \in {Where(e[2])} : bad' =
    Fl(e[2] = req[1], "address") \o Fl(e[3] = Mask(Count(e[2])), "slots")
    \o Fl(e[4] = (IF w[1] THEN 0 ELSE e[3]), "fault")
    \o Fl(\A k \in 1..Block : IF w[1] /\ k <= Count(e[2])
            THEN \E h \in {May(WIdx(w[2]) + k - 1)} : \E j \in 1..Len(h) : h[j] = e[5][k]
            ELSE e[5][k] = Nop, "word")
Ev(e) ==
  CASE e[1] = 0 -> m' = WrI(m, WIdx(e[2]), e[3]) /\ UNCHANGED <<c, code, req, bad>>
    [] e[1] = 1 -> c' = <<e[2], e[3], e[4]>> /\ UNCHANGED <<m, code, req, bad>>
    [] e[1] = 2 -> code' = Put(code, WIdx(e[2]), Append(May(WIdx(e[2])), e[3])) /\ UNCHANGED <<m, c, req, bad>>
    [] e[1] = 3 -> /\ code' = [i \in DOMAIN code |-> <<code[i][Len(code[i])]>>] /\ req' = <<>>
                   /\ UNCHANGED <<m, c, bad>>
    [] e[1] = 4 -> req' = <<e[2]>> /\ bad' = Fl(req = <<>>, "two fetches") /\ UNCHANGED <<m, c, code>>
    [] e[1] = 5 -> /\ IF req = <<>> THEN bad' = <<"answer to no fetch">> ELSE Answer(e)
                   /\ req' = <<>> /\ UNCHANGED <<m, c, code>>
    [] e[1] = 6 -> req' = <<>> /\ UNCHANGED <<m, c, code, bad>>
    [] OTHER -> /\ bad' = <<(<<"not ready when it said so", "answer to a dropped fetch", "identifier in use",
                              "malformed read", "never answered">>)[e[2]]>>
                /\ UNCHANGED <<m, c, code, req>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} : Ev(e)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, c |-> c, req |-> req,
          at |-> IF l > 1 /\ l - 1 <= Len(Traces[tid].v) THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
