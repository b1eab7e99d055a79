------------------------------- MODULE RobMC --------------------------------
(***************************************************************************)
(* The banked ring of the reorder buffer (lines of NB slots, one line       *)
(* entered per cycle, flags telling full from empty, group retirement of    *)
(* the head line with single retirement for special cases, tail roll-back   *)
(* on a misprediction) run in lockstep with the queue of Rob.  Every action *)
(* is one clock cycle with any combination of completion, retirement,       *)
(* misprediction, interrupt and entry.                                      *)
(***************************************************************************)
EXTENDS Rob, TLC
CONSTANTS NL, NB
Line == 0..(NL - 1)
Bank == 0..(NB - 1)
Idx(ln, b) == ln * NB + b
LineOf(id) == id \div NB
BankOf(id) == id % NB
Inc(p) == (p + 1) % NL

VARIABLES slot, deq, enq, df, ef, q, ok
vars == <<slot, deq, enq, df, ef, q, ok>>
None == [v |-> FALSE, done |-> FALSE, last |-> FALSE]

Init == /\ slot = [x \in Line \X Bank |-> None] /\ deq = 0 /\ enq = 0 /\ df = FALSE /\ ef = FALSE
        /\ q = <<>> /\ ok = TRUE
Empty == deq = enq /\ df = ef
Full == deq = enq /\ df # ef

HeadOf(s, ln) == {b \in Bank : s[<<ln, b>>].v}
First(S) == CHOOSE b \in S : \A c \in S : b <= c

\* the ring's retirement decision: <<number retired set of banks, interrupted>>
Decide(mis, irq, stall) ==
  LET H == HeadOf(slot, deq)
      D(b) == slot[<<deq, b>>].done
      L(b) == slot[<<deq, b>>].last
      group == ~Empty /\ ~mis /\ ~(H # {} /\ stall) /\ \A b \in H : D(b)
      special == (\E b \in H : L(b)) \/ irq
      single == ~mis /\ H # {} /\ special /\ (irq \/ D(First(H)))
      progress == ~mis /\ ~group /\ ~single /\ ~irq /\ H # {} /\ D(First(H)) /\ ~L(First(H))
  IN IF single \/ progress THEN <<{First(H)}, irq /\ single, TRUE>>
     ELSE IF group THEN <<H, FALSE, TRUE>> ELSE <<{}, FALSE, FALSE>>

Contents == \* live slots in ring order, from deq
  LET n == IF Full THEN NL ELSE (enq - deq + NL) % NL
      RECURSIVE From(_)
      From(k) == IF k = n THEN <<>>
                 ELSE LET ln == (deq + k) % NL
                          RECURSIVE B(_)
                          B(b) == IF b = NB THEN <<>>
                                  ELSE (IF slot[<<ln, b>>].v THEN <<Idx(ln, b)>> ELSE <<>>) \o B(b + 1)
                      IN B(0) \o From(k + 1)
  IN From(0)

E(id, last) == [id |-> id, want |-> {1}, done |-> {}, last |-> last]

Cycle(fin, mis, irq, stall, ent) ==
  LET s1 == IF fin >= 0 THEN [slot EXCEPT ![<<LineOf(fin), BankOf(fin)>>].done = TRUE] ELSE slot
      q1 == IF fin >= 0 THEN Finish(q, fin, 1) ELSE q
      d == Decide(mis >= 0, irq, stall)
      out == d[1]
      s2 == [x \in Line \X Bank |-> IF x[1] = deq /\ x[2] \in out THEN None ELSE s1[x]]
      drained == d[3] /\ HeadOf(s2, deq) = {}
      deq2 == IF drained THEN Inc(deq) ELSE deq
      df2 == IF drained /\ deq2 = 0 THEN ~df ELSE df
      n == Cardinality(out)
      flush == d[2] \/ \E b \in out : Cardinality(out) = 1 /\ slot[<<deq, b>>].last
      \* misprediction: roll the tail back to the line after the branch
      enqM == Inc(LineOf(mis))
      ahead(ln) == (ln - LineOf(mis) + NL) % NL
      \* lines strictly between the branch and the old tail
      span == (enq - LineOf(mis) + NL) % NL
      s3 == IF mis < 0 THEN s2
            ELSE [x \in Line \X Bank |->
                    IF (x[1] = LineOf(mis) /\ x[2] > BankOf(mis))
                       \/ (x[1] # LineOf(mis) /\ (IF span = 0 THEN TRUE ELSE ahead(x[1]) < span))
                    THEN None ELSE s2[x]]
      enq3 == IF mis >= 0 THEN enqM ELSE enq
      ef3 == IF mis >= 0 /\ enqM > enq THEN ~ef ELSE ef
      \* entry: ent is a function from banks to "last" flags, on a partial domain
      can == ~Full /\ mis < 0 /\ ~flush
      s4 == IF can /\ DOMAIN ent # {} THEN [x \in Line \X Bank |->
               IF x[1] = enq /\ x[2] \in DOMAIN ent THEN [v |-> TRUE, done |-> FALSE, last |-> ent[x[2]]] ELSE s3[x]] ELSE s3
      enq4 == IF can /\ DOMAIN ent # {} THEN Inc(enq) ELSE enq3
      ef4 == IF can /\ DOMAIN ent # {} /\ enq4 = 0 THEN ~ef ELSE ef3
      RECURSIVE Ent(_, _)
      Ent(w, b) == IF b = NB THEN w
                   ELSE Ent(IF b \in DOMAIN ent THEN Append(w, E(Idx(enq, b), ent[b])) ELSE w, b + 1)
      q2 == RetireN(q1, n)
      q3 == IF mis >= 0 THEN CutAfter(q2, mis) ELSE q2
      q4 == IF can THEN Ent(q3, 0) ELSE q3
  IN /\ q' = IF flush THEN <<>> ELSE q4
     /\ slot' = IF flush THEN [x \in Line \X Bank |-> None] ELSE s4
     /\ deq' = IF flush THEN 0 ELSE deq2
     /\ enq' = IF flush THEN 0 ELSE enq4
     /\ df' = IF flush THEN FALSE ELSE df2
     /\ ef' = IF flush THEN FALSE ELSE ef4
     /\ ok' = /\ n <= Len(q)
              /\ (d[2] => n = 1 /\ out = {BankOf(q[1].id)} /\ deq = LineOf(q[1].id))
              /\ (n > 0 /\ ~d[2] => MayRetire(q, n))
              /\ \A k \in 1..n : q[k].id \in {Idx(deq, b) : b \in out}
              /\ (can => \A b \in DOMAIN ent : MayEnter(q3, Idx(enq, b)))
              /\ (n > 0 /\ ~flush => ~(q[n].last /\ n > 1))

Entries == UNION {[S -> BOOLEAN] : S \in SUBSET Bank}
Next ==
  \E fin \in {-1} \cup {q[k].id : k \in {j \in 1..Len(q) : q[j].done = {}}},
     mis \in {-1} \cup {q[k].id : k \in {j \in 1..Len(q) : Complete(q[j]) /\ ~q[j].last}},
     irq, stall \in BOOLEAN, ent \in Entries :
       \* combinations whose outcome does not depend on the extra input are left out
       /\ (mis >= 0 => ~irq /\ ~stall /\ ent = <<>>)
       /\ (irq => ~stall) /\ (Full => ent = <<>>)
       /\ Cycle(fin, mis, irq, stall, ent)

Spec == Init /\ [][Next]_vars
Lockstep == Contents = [k \in 1..Len(q) |-> q[k].id]
Decisions == ok
UniqueIds == Unique(q)
\* nothing valid outside the window
NoZombies == Cardinality({x \in Line \X Bank : slot[x].v}) = Len(q)
EmptyRight == Empty => q = <<>>
View == <<slot, deq, enq, df, ef, q, ok>>
=============================================================================
