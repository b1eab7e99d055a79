----------------------------- MODULE IssueTrace -----------------------------
(***************************************************************************)
(* Recorded cycles of dispatch, issue and register read against Issue.      *)
(* cycle: <<t, [flush, redirect index or -1], dispatched, queued, issued,   *)
(*          produced, retired>>                                             *)
(*  dispatched [id, dest or -1, parts]                                      *)
(*  queued     [part, id, op, s1 or -1, s2 or -1, dest or -1, s1 unused]    *)
(*  issued     [port able, id, op, s1, s2, dest, v1, v2]                    *)
(*  produced   [register, value, by a CSR instruction]                      *)
(* Whatever follows a CSR instruction is flushed when that retires, so what *)
(* it reads of the CSR instruction's result is of no consequence.           *)
(* The first element of a run is the register file it starts with.          *)
(***************************************************************************)
EXTENDS Issue, TLC, Json, IOUtils, Bitwise
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, q, pend, val, bad
vars == <<tid, l, q, pend, val, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Bits(m) == {p \in {1, 2, 4} : m & p # 0}

Init == /\ tid \in 1..Len(Traces) /\ l = 2 /\ q = <<>> /\ pend = {} /\ bad = <<>>
        /\ val = [p \in 0..(Len(Traces[tid].pt[1]) - 1) |-> <<"known", Traces[tid].pt[1][p + 1], FALSE>>]

\* values produced this cycle, item k on
RECURSIVE Produce(_, _, _)
Produce(v, x, k) ==
  IF k > Len(x) THEN <<v, <<>>>>
  ELSE LET p == x[k][1]
           b == CASE v[p][1] = "wait" -> <<"written before issue">>
                  [] v[p][1] = "known" -> Fl(v[p][2] = x[k][2], "written twice")
                  [] OTHER -> <<>>
       IN IF b # <<>> THEN <<v, b>>
          ELSE Produce(IF v[p][1] = "run" THEN [v EXCEPT ![p] = <<"known", x[k][2], x[k][3] = 1>>] ELSE v, x, k + 1)

Moot(v, p) == p > 0 /\ v[p][3]
Match(P, i) == {u \in P : u.id = i[2] /\ u.op = i[3]}
\* issue item k on: <<pend, val, mismatches>>
RECURSIVE Issued(_, _, _, _)
Issued(P, v, x, k) ==
  IF k > Len(x) THEN <<P, v, <<>>>>
  ELSE LET i == x[k]
           m == Match(P, i)
       IN IF m = {} THEN <<P, v, <<"issued nothing queued">>>>
          ELSE LET u == CHOOSE y \in m : TRUE
                   b == Fl(i[1] = 1, "wrong port")
                        \o Fl(u.s1 = i[4] /\ u.s2 = i[5] /\ u.dest = i[6], "issued fields")
                        \o Fl(u.skip \/ Known(v, u.s1), "source 1 not ready")
                        \o Fl(Known(v, u.s2), "source 2 not ready")
                        \o Fl(u.skip \/ ~Known(v, u.s1) \/ Moot(v, u.s1) \/ i[7] = ValueOf(v, u.s1), "source 1 value")
                        \o Fl(~Known(v, u.s2) \/ Moot(v, u.s2) \/ i[8] = ValueOf(v, u.s2), "source 2 value")
               IN IF b # <<>> THEN <<P, v, b>>
                  ELSE Issued(P \ {u}, IF u.dest > 0 /\ v[u.dest][1] = "wait" THEN [v EXCEPT ![u.dest] = <<"run", 0, FALSE>>] ELSE v,
                              x, k + 1)

RECURSIVE Setall(_, _, _)
Setall(v, S, x) == IF S = {} THEN v ELSE LET p == CHOOSE y \in S : TRUE IN Setall([v EXCEPT ![p] = x], S \ {p}, x)

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     \E pr \in {Produce(val, e[6], 1)} :
     \E is \in {IF pr[2] # <<>> THEN <<pend, pr[1], pr[2]>> ELSE Issued(pend, pr[1], e[5], 1)} :
     LET flush == e[2][1] = 1
         mis == e[2][2] >= 0
         d == e[3]
         nq == e[4]
         new == {[id |-> nq[k][2], op |-> nq[k][3], s1 |-> nq[k][4], s2 |-> nq[k][5], dest |-> nq[k][6],
                  skip |-> nq[k][7] = 1] : k \in 1..Len(nq)}
         count(id) == Cardinality({j \in 1..Len(nq) : nq[j][2] = id})
         q1 == SubSeq(q, (IF e[7] > Len(q) THEN Len(q) ELSE e[7]) + 1, Len(q))
         q2 == IF mis THEN Keep(q1, e[2][2]) ELSE q1
         lost == Ids(q1) \ Ids(q2)
         q3 == q2 \o [k \in 1..Len(d) |-> [id |-> d[k][1], dest |-> d[k][2]]]
         dests == {d[k][2] : k \in 1..Len(d)} \ {-1, 0}
         \* registers of squashed instructions belong to nobody any more
         deadr == {q1[k].dest : k \in {j \in 1..Len(q1) : flush \/ q1[j].id \in lost}} \ {-1, 0}
         v1 == Setall(is[2], deadr, <<"free", 0, FALSE>>)
         vf == IF flush THEN v1 ELSE Setall(v1, dests, <<"wait", 0, FALSE>>)
     IN /\ q' = IF flush THEN <<>> ELSE q3
        /\ pend' = IF flush THEN {} ELSE {u \in is[1] \cup new : u.id \notin lost}
        /\ val' = vf
        /\ bad' = is[3]
                  \o Fl(Traces[tid].end # "stuck", "stuck")
                  \o Fl(\A k \in 1..Len(d) : count(d[k][1]) = Cardinality(Bits(d[k][3])),
                        "parts queued")
                  \o Fl(\A k \in 1..Len(nq) : \E j \in 1..Len(d) : d[j][1] = nq[k][2], "queued for nobody")
                  \o Fl(mis /\ ~flush => e[2][2] \in Ids(q1), "no such branch")
                  \o Fl(mis => d = <<>>, "dispatched during recovery")

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, q |-> q, pend |-> pend,
          e |-> IF l <= Len(Traces[tid].pt) THEN Traces[tid].pt[l] ELSE <<>>]
=============================================================================
