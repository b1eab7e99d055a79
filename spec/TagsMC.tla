------------------------------- MODULE TagsMC -------------------------------
(***************************************************************************)
(* The tag allocator (free vector, running mask, per-tag checkpoint of the  *)
(* running mask, one-cycle latch of resolutions) with the masks carried by  *)
(* the instructions, in lockstep with Tags.  One action is one clock cycle. *)
(***************************************************************************)
EXTENDS Tags, TLC
CONSTANTS NT, MaxWin, W, Units
Tag == 1..NT

VARIABLES win, free, now, cp, lat, ok
vars == <<win, free, now, cp, lat, ok>>
Quiet == [mis |-> 0, clear |-> {}]

Init == win = <<>> /\ free = Tag /\ now = {} /\ cp = [t \in Tag |-> {}] /\ lat = Quiet /\ ok = TRUE

\* the mechanism's view of who survives a misprediction: its tag is not carried
Survive(v, t) == SelectSeq(v, LAMBDA x : t \notin x.mask)
Strip(v, C) == [k \in 1..Len(v) |-> [v[k] EXCEPT !.mask = @ \ C]]

\* new: sequence of booleans (branch or not)
RECURSIVE Enter(_, _, _, _, _)
Enter(v, f, n, c, new) ==
  IF new = <<>> \/ (new[1] /\ f = {}) THEN <<v, f, n, c>>
  ELSE IF ~new[1] THEN Enter(Append(v, [tag |-> 0, open |-> FALSE, mask |-> n, res |-> FALSE]), f, n, c, Tail(new))
  ELSE LET t == CHOOSE x \in f : \A y \in f : x <= y
           n1 == n \cup {t}
       IN Enter(Append(v, [tag |-> t, open |-> TRUE, mask |-> n, res |-> FALSE]), f \ {t}, n1, [c EXCEPT ![t] = n1], Tail(new))

Cycle(R, M, flush, ret, new) ==
  LET C == lat.clear
      t == lat.mis
      \* mechanism
      v1 == IF t > 0 THEN Survive(win, t) ELSE win
      v2 == Strip(v1, C)
      R1 == {k \in R : t = 0 \/ t \notin win[k].mask}     \* squashed branches do not report
      M1 == M \cap R1
      old == IF M1 = {} THEN 0 ELSE CHOOSE k \in M1 : \A j \in M1 : k <= j
      lat1 == [mis |-> IF old = 0 THEN 0 ELSE win[old].tag, clear |-> {win[k].tag : k \in R1}]
      now1 == now \ C
      cp1 == [x \in Tag |-> cp[x] \ C]
      gone == IF t > 0 THEN now \ cp[t] ELSE {}
      free1 == free \cup C \cup gone
      now2 == now1 \ gone
      v3 == [k \in 1..Len(v2) |-> IF k \in R1 THEN [v2[k] EXCEPT !.res = TRUE] ELSE v2[k]]
      \* the specification's view of the same cycle
      s1 == IF t > 0 THEN SquashAfter(win, t) ELSE win
      ent == IF t > 0 THEN <<v3, free1, now2, cp1>> ELSE Enter(v3, free, now2, cp1, new)
      ent2 == IF t > 0 THEN ent ELSE <<ent[1], ent[2] \cup C, ent[3], ent[4]>>
      done == ClearTags(ent2[1], C)
  IN IF flush
     THEN win' = <<>> /\ free' = Tag /\ now' = {} /\ cp' = cp /\ lat' = Quiet /\ ok' = TRUE
     ELSE /\ ret <= Len(done) /\ Len(done) - ret <= MaxWin
          /\ \A k \in 1..ret : done[k].tag = 0 \/ (~done[k].open /\ k <= Len(win))
          /\ win' = SubSeq(done, ret + 1, Len(done))
          /\ free' = ent2[2] /\ now' = ent2[3] /\ cp' = ent2[4] /\ lat' = lat1
          /\ ok' = /\ Len(s1) = Len(v1) /\ \A k \in 1..Len(s1) : s1[k].tag = v1[k].tag
                   /\ (t > 0 => PosOfTag(win, t) > 0)

News == UNION {[1..n -> BOOLEAN] : n \in 0..W}
Next ==
  \E R \in {S \in SUBSET {k \in 1..Len(win) : win[k].open /\ ~win[k].res} : Cardinality(S) <= Units} :
  \E M \in SUBSET R, flush \in BOOLEAN, ret \in 0..W, new \in News :
    /\ (flush => R = {} /\ ret = 0 /\ new = <<>>)
    /\ (lat.mis > 0 => new = <<>>)
    /\ Cycle(R, M, flush, ret, new)

Spec == Init /\ [][Next]_vars
Exact == ok
Unique == TagsUnique(win)
CarriedRight == \A k \in 1..Len(win) : win[k].mask = Carried(win, k)
Running == now = InUse(win)
\* no tag is lost, none is free while in use
Conserved == free = Tag \ InUse(win)
Live == {win[k].tag : k \in {j \in 1..Len(win) : win[j].open}}
View == <<win, free, now, [t \in Tag |-> IF t \in Live THEN cp[t] ELSE {}], lat, ok>>
=============================================================================
