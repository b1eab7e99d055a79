------------------------------ MODULE RenameMC ------------------------------
(***************************************************************************)
(* The renaming mechanism (a ring of free registers with a speculative and  *)
(* a committed head, a speculative and a committed map, and one map/head    *)
(* checkpoint per branch tag) against Rename.  All bounded behaviours of a  *)
(* small instance are enumerated; the abstract state is carried along and   *)
(* the mechanism must agree with it in every reachable state.               *)
(***************************************************************************)
EXTENDS Rename, TLC

CONSTANTS NA,        \* architectural registers 0..NA-1; register 0 is never written
          NP,        \* physical registers 0..NP-1
          NT,        \* branch tags 1..NT
          W,         \* instructions renamed, and retired, per cycle
          MaxWin

Areg == 0..(NA - 1)
Preg == 0..(NP - 1)
Tags == 1..NT
Pool == NP - NA

VARIABLES arch, win,                                          \* specification
          spec, com, cp, list, head, chead, tail, cphead      \* mechanism
mech == <<spec, com, cp, list, head, chead, tail, cphead>>
vars == <<arch, win, mech>>

Inc(p) == (p + 1) % NP
Dist(a, b) == (b - a + NP) % NP

Init ==
  /\ arch = [a \in Areg |-> a] /\ win = <<>>
  /\ spec = [a \in Areg |-> a] /\ com = [a \in Areg |-> a]
  /\ cp = [t \in Tags |-> [a \in Areg |-> 0]]
  /\ list = [i \in 0..(NP - 1) |-> IF i < Pool THEN NA + i ELSE 0]
  /\ head = 0 /\ chead = 0 /\ tail = Pool
  /\ cphead = [t \in Tags |-> 0]

\* tags whose branch is still unresolved; a resolved branch may stay in the
\* window while its tag is handed out again
Live == {win[i].tag : i \in {j \in 1..Len(win) : win[j].tag > 0 /\ win[j].live}}

\* one renamed instruction: m is <<win, spec, cp, head, cphead>>
One(m, da, tag) ==
  LET p == list[m[4]]
      w1 == Append(m[1], [da |-> da, dp |-> IF da < 0 THEN 0 ELSE p,
                          old |-> IF da < 0 THEN 0 ELSE m[2][da], tag |-> tag, live |-> tag > 0])
      s1 == IF da < 0 THEN m[2] ELSE [m[2] EXCEPT ![da] = p]
      h1 == IF da < 0 THEN m[4] ELSE Inc(m[4])
  IN <<w1, s1, IF tag > 0 THEN [m[3] EXCEPT ![tag] = s1] ELSE m[3],
       h1, IF tag > 0 THEN [m[5] EXCEPT ![tag] = h1] ELSE m[5]>>

LiveIn(w) == {w[i].tag : i \in {j \in 1..Len(w) : w[j].tag > 0 /\ w[j].live}}
\* all ways to rename up to n instructions in a cycle.  The hand-out must be a
\* register that is free in the specification's sense.
RECURSIVE Group(_, _)
Group(m, n) ==
  {m} \cup
  (IF n = 0 \/ Len(m[1]) >= MaxWin THEN {}
   ELSE UNION {Group(One(m, da, tag), n - 1) :
                 da \in {d \in {-1} \cup (Areg \ {0}) : d >= 0 => m[4] # tail},
                 tag \in {-1} \cup (Tags \ LiveIn(m[1]))})

\* retirement of the first k instructions
RECURSIVE Ret(_, _, _, _, _, _)
Ret(a, w, c, l, ch, tl) ==
  LET h == w[1]
  IN <<Retire(a, w), Tail(w),
       IF h.da < 0 THEN c ELSE [c EXCEPT ![h.da] = h.dp],
       IF h.da < 0 THEN l ELSE [l EXCEPT ![tl] = h.old],
       IF h.da < 0 THEN ch ELSE Inc(ch),
       IF h.da < 0 THEN tl ELSE Inc(tl)>>
RECURSIVE RetN(_, _)
RetN(r, k) == IF k = 0 THEN r ELSE RetN(Ret(r[1], r[2], r[3], r[4], r[5], r[6]), k - 1)
CanRetire(k) == k <= Len(win) /\ \A i \in 1..k : ~(win[i].tag > 0 /\ win[i].live)

\* one cycle without a squash: some retire, some rename
Cycle ==
  \E k \in 0..W :
    /\ CanRetire(k)
    /\ LET r == RetN(<<arch, win, com, list, chead, tail>>, k)
       IN \E g \in Group(<<r[2], spec, cp, head, cphead>>, W) :
            /\ arch' = r[1] /\ win' = g[1]
            /\ spec' = g[2] /\ cp' = g[3] /\ head' = g[4] /\ cphead' = g[5]
            /\ com' = r[3] /\ list' = r[4] /\ chead' = r[5] /\ tail' = r[6]
\* a flush at retirement: up to k retire, the rest disappears
Flush ==
  \E k \in 0..W :
    /\ CanRetire(k)
    /\ LET r == RetN(<<arch, win, com, list, chead, tail>>, k)
       IN /\ arch' = r[1] /\ win' = <<>>
          /\ spec' = r[3] /\ com' = r[3] /\ list' = r[4]
          /\ chead' = r[5] /\ head' = r[5] /\ tail' = r[6]
          /\ UNCHANGED <<cp, cphead>>
\* a misprediction: nothing retires in that cycle
Mispredict ==
  \E t \in Live :
    /\ win' = LET w == Squash(win, t) IN [w EXCEPT ![Len(w)].live = FALSE]
    /\ spec' = cp[t] /\ head' = cphead[t]
    /\ UNCHANGED <<arch, com, cp, list, chead, tail, cphead>>
Resolve ==
  \E t \in Live :
    /\ win' = [win EXCEPT ![LastTag(win, t, Len(win))].live = FALSE]
    /\ UNCHANGED <<arch, mech>>

Next == Cycle \/ Flush \/ Mispredict \/ Resolve
Spec == Init /\ [][Next]_vars

RECURSIVE Ring(_, _)
Ring(from, to) == IF from = to THEN {} ELSE {list[from]} \cup Ring(Inc(from), to)

\* behaviour does not depend on where the ring starts, on dead ring slots or on
\* checkpoints of free tags
RECURSIVE Seqn(_, _)
Seqn(from, to) == IF from = to THEN <<>> ELSE <<list[from]>> \o Seqn(Inc(from), to)
View == <<arch, win, spec, com, Dist(chead, head), Seqn(chead, tail),
          [t \in Live |-> <<cp[t], Dist(chead, cphead[t])>>]>>

Agree ==
  /\ com = arch
  /\ spec = MapOf(arch, win)
  /\ Ring(head, tail) = FreeOf(Preg, arch, win)
  /\ Dist(head, tail) = Cardinality(FreeOf(Preg, arch, win))
Own == Distinct(arch, win) /\ Conserved(Preg, arch, win)
=============================================================================
