------------------------------ MODULE BpuTrace ------------------------------
(***************************************************************************)
(* Runs of the branch predictor.  A cycle is                                *)
(*   <<i, u, o, s, q, h, f>>                                                *)
(* i: <<redirect, address, ready>>; u: what retires, <<valid, pc, kind,     *)
(* direction, direction predicted, target, digest of the training>>;        *)
(* o: <<can fetch, address, next, fetched, queue full, second-next known,   *)
(* second-next, its mismatch now, its match before, what it was>>;          *)
(* s: <<kind, direction, target>> per slot; q: training applied per bank;   *)
(* h: both histories after the cycle; f: their folds, on some cycles.       *)
(***************************************************************************)
EXTENDS Bpu, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, pc, sp, ar, que, known, tab, nxt, two, bad
(* que: training queue per bank; known: kind of each pc as trained, with the pcs ever trained per bank;
   tab: pc -> last target, targets of indirect jumps per bank, streaks; nxt: fetch block -> following block as seen, confidence;
   two: <<second-next address, confirmed, matched before, previous second-next>> *)
vars == <<tid, l, pc, sp, ar, que, known, tab, nxt, two, bad>>
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ pc = Traces[tid].pc /\ sp = NoHist /\ ar = NoHist
        /\ que = [b \in 0..Banks - 1 |-> <<>>]
        /\ known = [type |-> Empty, seen |-> [b \in 0..Banks - 1 |-> {}], clash |-> [b \in 0..Banks - 1 |-> FALSE]]
        /\ tab = [last |-> Empty, seen |-> [b \in 0..Banks - 1 |-> {}], ind |-> [b \in 0..Banks - 1 |-> {}], run |-> Empty]
        /\ nxt = Empty
        /\ two = <<Add(Traces[tid].pc, 16), 0, 0, 0>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>

(* ---- what a slot may predict ---- *)
KindOk(p, t) ==
  \/ t = Get(known.type, p, NonCtl)
  \/ t = NonCtl /\ (Cardinality(known.seen[Bank(p)]) > 2 \/ known.clash[Bank(p)])
TargetOk(p, t, a) ==
  LET b == Bank(p)
  IN CASE t = NonCtl -> TRUE
       [] t = Ind -> \/ a \in tab.ind[b]
                     \/ p \in DOMAIN tab.last /\ a = tab.last[p]
                     \/ a = Add(p, 4) /\ (p \notin DOMAIN tab.last \/ Cardinality(tab.seen[b]) > 4)
       [] OTHER -> IF p \in DOMAIN tab.last THEN a = tab.last[p] \/ (a = Add(p, 4) /\ Cardinality(tab.seen[b]) > 4)
                   ELSE a = Add(p, 4)
DirOk(p, t, d, steady) ==
  CASE t = NonCtl -> d = 0
    [] t = Cond -> ~steady \/ p \notin DOMAIN tab.run \/ tab.run[p][2] < 260 \/ d = tab.run[p][1]
    [] OTHER -> d = 1

(* ---- second-next predictor: confidence counts up to 3, usable from 2 ---- *)
Idx(a) == LET x == WXor(WXor(Srl(a, 2), Srl(a, 11)), Srl(a, 19)) IN x % 4096
Entry(a) == LET e == Get(nxt, Idx(a), <<0, 0, -1>>) IN IF e[3] >= 0 /\ e[1] = Srl(a, 2) THEN e ELSE <<0, 0, -1>>

\* histories along the predicted slots 1..k
RECURSIVE Along(_, _, _, _, _)
Along(h, base, s, k, n) ==
  IF k > n THEN h
  ELSE LET p == Add(base, 4 * (k - 1))
           h1 == IF s[k][1] = Cond THEN Outcome(h, p, s[k][2]) ELSE h
       IN IF s[k][2] = 1 THEN Stack(h1, s[k][1], p) ELSE Along(h1, base, s, k + 1, n)
\* retirement: <<retired history, fetch history>>; a wrong direction puts the fetch history right
Retire(hs, u) ==
  IF u[1] = 0 THEN hs
  ELSE IF u[3] = Cond
       THEN LET a == Outcome(hs[1], u[2], u[4])
            IN IF u[5] # u[4] THEN <<a, [hs[2] EXCEPT !.g = a.g, !.p = a.p]>> ELSE <<a, hs[2]>>
       ELSE <<Stack(hs[1], u[3], u[2]), hs[2]>>

Hist(h) == <<h.g[1], h.g[2], h.g[3], h.g[4], h.p, Len(h.r), IF h.r = <<>> THEN 0 ELSE h.r[1]>>

Cycle(e) ==
  LET i == e[1]
      u == e[2]
      o == e[3]
      s == e[4]
      q == e[5]
      ref == i[1] = 1
      base == IF ref THEN i[2] ELSE pc
      n == Slots(base)
      go == ref \/ i[3] = 1
      fetched == go /\ ~ref
      tk == {k \in 1..n : s[k][2] = 1}
      t == CHOOSE k \in tk : \A j \in tk : k <= j
      ras == IF ref THEN ar.r ELSE sp.r
      next == IF ~go \/ tk = {} THEN After(base)
              ELSE IF s[t][1] = Ret /\ ras # <<>> THEN ras[1] ELSE s[t][3]
      sp1 == IF fetched THEN Along(sp, base, s, 1, n) ELSE sp
      hs == Retire(Retire(<<ar, sp1>>, u[1]), u[2])
      ar2 == hs[1]
      sp2 == IF ref THEN hs[1] ELSE hs[2]
      ahead == Traces[tid].ahead = 1   \* the second-next predictor is built in
      steady == Traces[tid].steady = 1
      \* queues: one applied per bank, then what retires is added
      popped == [b \in 0..Banks - 1 |-> IF que[b] = <<>> THEN <<>> ELSE <<que[b][1]>>]
      q1 == [b \in 0..Banks - 1 |-> (IF que[b] = <<>> THEN <<>> ELSE Tail(que[b]))
              \o (IF u[1][1] = 1 /\ Bank(u[1][2]) = b THEN <<u[1]>> ELSE <<>>)
              \o (IF u[2][1] = 1 /\ Bank(u[2][2]) = b THEN <<u[2]>> ELSE <<>>)]
      \* second-next
      e1 == Entry(base)
      st1 == IF e1[3] >= 2 THEN e1[2] ELSE After(base)
      e2 == Entry(st1)
      emit == st1 = next /\ e2[3] >= 2
      miss == two[1] # next
  IN /\ bad' = Fl(o[1] = (IF ref THEN 0 ELSE 1) /\ o[2] = base, "address fetched")
            \o Fl(o[4] = (IF fetched THEN 1 ELSE 0), "fetch")
            \o Fl(~go \/ \A k \in 1..n : KindOk(Add(base, 4 * (k - 1)), s[k][1]), "kind")
            \o Fl(~go \/ \A k \in 1..n : DirOk(Add(base, 4 * (k - 1)), s[k][1], s[k][2], steady), "direction")
            \o Fl(~go \/ \A k \in 1..n : TargetOk(Add(base, 4 * (k - 1)), s[k][1], s[k][3]), "target")
            \o Fl(~go \/ \A k \in 1..Width : k <= n \/ s[k][2] = 0, "slot past the block")
            \o Fl(o[3] = next, "next address")
            \o Fl(\A b \in 0..Banks - 1 : IF popped[b] = <<>> THEN q[b + 1][1] = 0
                                           ELSE q[b + 1] = <<1, popped[b][1][7]>>, "training applied")
            \o Fl(o[5] = (IF \E b \in 0..Banks - 1 : Len(q1[b]) > QDepth - 2 THEN 1 ELSE 0), "queue full")
            \o Fl(SubSeq(e[6], 1, 7) = Hist(sp2), "history as fetched")
            \o Fl(SubSeq(e[6], 8, 14) = Hist(ar2), "history as retired")
            \o Fl(e[7] = <<>> \/ (SubSeq(e[7], 1, 12) = Folds(sp2.g) /\ SubSeq(e[7], 13, 24) = Folds(ar2.g)), "folds")
            \o Fl(o[6] = (IF ref THEN 0 ELSE two[2]), "second-next known")
            \o Fl(o[7] = (IF ref \/ two[2] = 0 THEN Add(base, 16) ELSE two[1]), "second-next address")
            \o Fl(o[8] = (IF ahead /\ fetched /\ miss THEN 1 ELSE 0), "second-next mismatch")
            \o Fl(o[9] = (IF ref THEN 0 ELSE two[3]) /\ (~ahead \/ o[10] = two[4]), "second-next before")
     /\ pc' = IF ref THEN i[2] ELSE IF go THEN next ELSE pc
     /\ sp' = sp2 /\ ar' = ar2 /\ que' = q1
     /\ two' = IF ~ahead THEN <<0, 0, 0, 0>> ELSE IF ref THEN <<Add(i[2], 16), 0, 0, 0>>
               ELSE IF fetched THEN <<IF emit THEN e2[2] ELSE Add(next, 16), IF emit THEN 1 ELSE 0, IF miss THEN 0 ELSE 1, two[1]>>
               ELSE two
     /\ nxt' = IF ahead /\ fetched THEN Put(nxt, Idx(base), <<Srl(base, 2), next,
                                   IF e1[3] < 0 THEN 1 ELSE IF e1[2] # next THEN 0 ELSE IF e1[3] >= 3 THEN 3 ELSE e1[3] + 1>>)
               ELSE nxt
     /\ known' = LET One(kn, x) == IF x[1] = 0 THEN kn
                                   ELSE [kn EXCEPT !.type = Put(@, x[2], x[3]),
                                                   !.seen[Bank(x[2])] = IF x[3] = NonCtl THEN @ ELSE @ \cup {x[2]}]
                     both == u[1][1] = 1 /\ u[2][1] = 1 /\ Bank(u[1][2]) = Bank(u[2][2])
                     k2 == One(One(known, u[1]), u[2])
                 IN IF both THEN [k2 EXCEPT !.clash[Bank(u[1][2])] = TRUE] ELSE k2
     /\ tab' = LET One(tb, b) ==
                     IF popped[b] = <<>> THEN tb
                     ELSE LET x == popped[b][1]
                              r == Get(tb.run, x[2], <<x[4], 0>>)
                              t1 == IF x[3] = Cond THEN [tb EXCEPT !.run = Put(@, x[2], <<x[4], IF r[1] = x[4] THEN r[2] + 1 ELSE 1>>)] ELSE tb
                          IN IF x[3] = NonCtl \/ x[4] = 0 THEN t1
                             ELSE [t1 EXCEPT !.last = Put(@, x[2], x[6]), !.seen[b] = @ \cup {x[2]},
                                             !.ind[b] = IF x[3] = Ind THEN @ \cup {x[6]} ELSE @]
               IN One(One(One(One(tab, 0), 1), 2), 3)
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} : Cycle(e)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, pc |-> pc, sp |-> sp, ar |-> ar, two |-> two, known |-> known, tab |-> tab,
          at |-> IF l > 1 /\ l - 1 <= Len(Traces[tid].v) THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
