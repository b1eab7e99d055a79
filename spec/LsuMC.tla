------------------------------- MODULE LsuMC -------------------------------
(* Loads, stores and reservations of a window executed out of order, every   *)
(* interleaving of a few operations over two bytes.  Operations enter in     *)
(* order (guessing past branches), learn their address and their data at any *)
(* time, loads take their value as soon as the rule below allows it, the     *)
(* window retires in order, retired stores reach memory later.  Checked: what *)
(* a load returns when it retires, whether a conditional store succeeds, and *)
(* the memory left behind are those of executing the operations one by one.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,          \* operations of the program
          K,          \* operations in the window at most
          D,          \* retired stores waiting at most
          Flushes,    \* interruptions at most
          Kinds, WrongKinds

VARIABLES prog,       \* the program
          win,        \* operations in flight, oldest first
          base,       \* operations retired
          stq,        \* retired stores not yet in memory, oldest first
          mem,        \* memory as the cache holds it
          resv, prev, \* reservation the unit holds, the one before the last LR
          seqm, seqr, \* memory and reservation of the one-by-one execution
          cuts, ok
vars == <<prog, win, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>

Byte == {0, 1}
Masks == {{0}, {1}, {0, 1}}
Op(k, a, mis) == [k |-> k, a |-> a, mis |-> mis]
Ops(ks) ==
  {Op(k, a, FALSE) : k \in ks \cap {"L", "S"}, a \in Masks}
  \cup {Op(k, {0}, FALSE) : k \in ks \cap {"LR", "SC"}}
  \cup {Op("B", {}, m) : m \in IF "B" \in ks THEN {TRUE, FALSE} ELSE {}}
None == [b \in Byte |-> -1]

\* an operation in flight
Ent(op, v, wrong) == [k |-> op.k, a |-> op.a, mis |-> op.mis, v |-> v, wrong |-> wrong,
                      ak |-> FALSE, dk |-> FALSE, done |-> FALSE, r |-> None, suc |-> FALSE]
IsStore(e) == e.k \in {"S", "SC"}
Put(m, a, v) == [b \in Byte |-> IF b \in a THEN v ELSE m[b]]
Get(m, a) == [b \in Byte |-> IF b \in a THEN m[b] ELSE -1]

RECURSIVE Over(_, _)
Over(m, s) == IF s = <<>> THEN m ELSE Over(Put(m, Head(s).a, Head(s).v), Tail(s))

Init == /\ prog \in [1..N -> Ops(Kinds)]
        /\ win = <<>> /\ base = 0 /\ stq = <<>>
        /\ mem = [b \in Byte |-> 0] /\ seqm = [b \in Byte |-> 0]
        /\ resv = {} /\ prev = {} /\ seqr = {}
        /\ cuts = 0 /\ ok = TRUE

Astray == \E j \in 1..Len(win) : win[j].k = "B" /\ win[j].mis /\ ~win[j].done
\* nothing enters beside a reservation or a conditional store
Alone(k) == k \in {"LR", "SC"} => win = <<>> /\ stq = <<>>

Dispatch ==
  /\ Len(win) < K
  /\ IF Astray
     THEN \E op \in Ops(WrongKinds) :
            win' = Append(win, Ent(op, 100, TRUE))
     ELSE LET i == base + Len(win) + 1 IN
          i <= N /\ Alone(prog[i].k) /\ win' = Append(win, Ent(prog[i], i, FALSE))
  /\ UNCHANGED <<prog, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>

Addr(i) == /\ win[i].k # "B" /\ ~win[i].ak
           /\ win' = [win EXCEPT ![i].ak = TRUE]
           /\ UNCHANGED <<prog, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>
Data(i) == /\ IsStore(win[i]) /\ ~win[i].dk
           /\ win' = [win EXCEPT ![i].dk = TRUE]
           /\ UNCHANGED <<prog, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>

\* stores older than window position i, oldest first, without the conditional
\* ones that fail
Older(i) == stq \o SelectSeq(SubSeq(win, 1, i - 1), LAMBDA e : IsStore(e) /\ ~(e.done /\ ~e.suc))
Load(i) ==
  /\ win[i].k \in {"L", "LR"} /\ win[i].ak /\ ~win[i].done
  /\ \A j \in 1..(i - 1) : IsStore(win[j]) => win[j].ak /\ (win[j].k = "SC" => win[j].done)
  /\ LET o == Older(i)
         hit == {j \in 1..Len(o) : o[j].a \cap win[i].a # {}}
         y == CHOOSE j \in hit : \A q \in hit : q <= j
     IN IF hit = {}
        THEN win' = [win EXCEPT ![i].done = TRUE, ![i].r = Get(mem, win[i].a)]
        ELSE /\ win[i].a \subseteq o[y].a /\ o[y].dk
             /\ win' = [win EXCEPT ![i].done = TRUE, ![i].r = Get(Put(mem, o[y].a, o[y].v), win[i].a)]
  /\ IF win[i].k = "LR" THEN resv' = win[i].a /\ prev' = resv ELSE UNCHANGED <<resv, prev>>
  /\ UNCHANGED <<prog, base, stq, mem, seqm, seqr, cuts, ok>>

Store(i) ==
  /\ IsStore(win[i]) /\ win[i].ak /\ win[i].dk /\ ~win[i].done
  /\ win' = [win EXCEPT ![i].done = TRUE, ![i].suc = win[i].k = "S" \/ resv = win[i].a]
  /\ UNCHANGED <<prog, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>

Branch(i) ==
  /\ win[i].k = "B" /\ ~win[i].done
  /\ LET w == [win EXCEPT ![i].done = TRUE]
     IN win' = IF win[i].mis THEN SubSeq(w, 1, i) ELSE w
  /\ UNCHANGED <<prog, base, stq, mem, resv, prev, seqm, seqr, cuts, ok>>

Retire ==
  /\ win # <<>> /\ win[1].done
  /\ LET e == win[1]
         wr == e.k = "S" \/ (e.k = "SC" /\ e.suc)
         should == e.k = "S" \/ (e.k = "SC" /\ seqr = e.a)
     IN /\ wr => Len(stq) < D
        /\ ok' = /\ ok /\ ~e.wrong
                 /\ (e.k \in {"L", "LR"} => e.r = Get(seqm, e.a))
                 /\ (IsStore(e) => wr = should)
        /\ stq' = IF wr THEN Append(stq, e) ELSE stq
        /\ seqm' = IF should THEN Put(seqm, e.a, e.v) ELSE seqm
        /\ seqr' = CASE e.k = "LR" -> e.a
                     [] e.k = "SC" -> {}
                     [] e.k = "S" /\ e.a = seqr -> {}
                     [] OTHER -> seqr
        /\ resv' = CASE e.k = "SC" -> {}
                     [] e.k = "S" /\ e.a = resv -> {}
                     [] OTHER -> resv
        /\ prev' = IF e.k \in {"LR", "SC"} THEN {} ELSE prev
        /\ win' = Tail(win) /\ base' = base + 1
  /\ UNCHANGED <<prog, mem, cuts>>

\* a retired store reaches memory once no older one that overlaps it waits
Drain(i) ==
  /\ \A j \in 1..(i - 1) : stq[j].a \cap stq[i].a = {}
  /\ mem' = Put(mem, stq[i].a, stq[i].v)
  /\ stq' = SubSeq(stq, 1, i - 1) \o SubSeq(stq, i + 1, Len(stq))
  /\ UNCHANGED <<prog, win, base, resv, prev, seqm, seqr, cuts, ok>>

\* an interrupt at the oldest operation: nothing of the window has happened
Interrupt ==
  /\ cuts < Flushes /\ win # <<>>
  /\ cuts' = cuts + 1
  /\ resv' = IF win[1].k = "LR" /\ win[1].done THEN prev ELSE resv
  /\ prev' = {}
  /\ win' = <<>>
  /\ UNCHANGED <<prog, base, stq, mem, seqm, seqr, ok>>

Finished == base = N /\ stq = <<>>
Next == \/ Dispatch
        \/ \E i \in 1..Len(win) : Addr(i) \/ Data(i) \/ Load(i) \/ Store(i) \/ Branch(i)
        \/ Retire
        \/ \E i \in 1..Len(stq) : Drain(i)
        \/ Interrupt
        \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

AsIfOneByOne == ok
MemoryOverlay == Over(mem, stq) = seqm
\* the reservation of the unit runs ahead only while an LR is in flight
Reservation == resv = seqr \/ (win # <<>> /\ win[1].k = "LR" /\ win[1].done)
RightPath == \A i \in 1..Len(win) : win[i].wrong =>
               \E j \in 1..(i - 1) : win[j].k = "B" /\ win[j].mis /\ ~win[j].done
=============================================================================
