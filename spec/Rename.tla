------------------------------- MODULE Rename -------------------------------
(***************************************************************************)
(* What register renaming means, independent of free lists and checkpoints. *)
(*                                                                          *)
(* The state is the committed map `arch` and the window `win` of renamed,   *)
(* not yet retired instructions in program order.  Everything else is a     *)
(* function of the two: the map an instruction sees is the committed map    *)
(* overwritten by exactly its predecessors in the window, and a physical    *)
(* register is free iff nobody maps to it or will.                          *)
(*                                                                          *)
(* window item: [da |-> register or -1, dp |-> physical, old |-> physical,  *)
(*               tag |-> branch tag or -1]                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE MapUpTo(_, _, _)
\* the map after the first n items of the window
MapUpTo(arch, win, n) ==
  IF n = 0 THEN arch
  ELSE LET f == MapUpTo(arch, win, n - 1)
       IN IF win[n].da < 0 THEN f ELSE [f EXCEPT ![win[n].da] = win[n].dp]
MapOf(arch, win) == MapUpTo(arch, win, Len(win))

Mapped(arch) == {arch[a] : a \in DOMAIN arch}
InFlight(win) == {win[i].dp : i \in {j \in 1..Len(win) : win[j].da >= 0}}
FreeOf(pregs, arch, win) == pregs \ (Mapped(arch) \cup InFlight(win))
\* registers that become free when their overwriter retires
Pending(win) == {win[i].old : i \in {j \in 1..Len(win) : win[j].da >= 0}}

\* no register has two owners
Distinct(arch, win) ==
  /\ \A a, b \in DOMAIN arch : arch[a] = arch[b] => a = b
  /\ \A i, j \in 1..Len(win) : (i # j /\ win[i].da >= 0 /\ win[j].da >= 0) => win[i].dp # win[j].dp
  /\ Mapped(arch) \cap InFlight(win) = {}
\* every register is in exactly one of: current map, waiting for release, free
Conserved(pregs, arch, win) ==
  LET cur == Mapped(MapOf(arch, win))
      pend == Pending(win)
      fr == FreeOf(pregs, arch, win)
  IN /\ cur \cup pend \cup fr = pregs
     /\ cur \cap pend = {} /\ cur \cap fr = {} /\ pend \cap fr = {}
     /\ Cardinality(cur) + Cardinality(pend) + Cardinality(fr) = Cardinality(pregs)

\* --------------------------------------------------------------- transitions
Enter(win, item) == Append(win, item)
Retire(arch, win) == IF win[1].da < 0 THEN arch ELSE [arch EXCEPT ![win[1].da] = win[1].dp]
\* position of the youngest holder of a tag, 0 if none
RECURSIVE LastTag(_, _, _)
LastTag(win, t, n) == IF n = 0 THEN 0 ELSE IF win[n].tag = t THEN n ELSE LastTag(win, t, n - 1)
\* a mispredicted branch keeps itself and everything older
Squash(win, t) == SubSeq(win, 1, LastTag(win, t, Len(win)))
=============================================================================
