------------------------------- MODULE MemOps -------------------------------
(***************************************************************************)
(* A memory whose accesses take time.  A write takes effect, once, when it  *)
(* is accepted; a read may return any value its word has held between the   *)
(* moment it was asked and the moment it is answered; a walk reads the two   *)
(* levels of the page table one after the other in that time.                *)
(* m.mem is the current contents, m.log the overwritten values in order.     *)
(***************************************************************************)
EXTENDS Word, Sequences, FiniteSets
LaneMask(strb) == (IF strb % 2 = 1 THEN 255 ELSE 0) + (IF (strb \div 2) % 2 = 1 THEN 65280 ELSE 0)
                  + (IF (strb \div 4) % 2 = 1 THEN 16711680 ELSE 0)
                  - (IF (strb \div 8) % 2 = 1 THEN 16777216 ELSE 0)
WordAddr(a) == a - (a % 4)
LineAddr(a, size) == a - (a % size)
Val(m, a) == IF a \in DOMAIN m.mem THEN m.mem[a] ELSE 0
Put(m, a, d, strb) ==
  [mem |-> [m.mem EXCEPT ![a] = Merge(@, d, LaneMask(strb))], log |-> Append(m.log, <<a, m.mem[a]>>)]
Now(m) == Len(m.log)
\* the values of a word since a moment
Seen(m, a, k) == {Val(m, a)} \cup {m.log[j][2] : j \in {i \in (k + 1)..Len(m.log) : m.log[i][1] = a}}

\* the page walker returns the leaf entry as it is; permissions are judged by whoever asked
Leaf(p) == Bit(p, 1) \/ Bit(p, 3)
Bad(p) == ~Bit(p, 0) \/ (Bit(p, 2) /\ ~Bit(p, 1))
PteAddr(ppn, vpn) == Add(Sll(ppn, 12), 4 * vpn)
Walks(m, k, root, va) ==
  UNION {IF Bad(p) THEN {<<1, 0, 0>>}
         ELSE IF Leaf(p) THEN {IF Bits(p, 10, 10) # 0 THEN <<1, 0, 0>> ELSE <<0, p, 1>>}
         ELSE {IF Bad(q) \/ ~Leaf(q) THEN <<1, 0, 0>> ELSE <<0, q, 0>> :
                 q \in Seen(m, PteAddr(Bits(p, 10, 22), Bits(va, 12, 10)), k)} :
         p \in Seen(m, PteAddr(root, Bits(va, 22, 10)), k)}
=============================================================================
