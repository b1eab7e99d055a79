----------------------------- MODULE Predecode -----------------------------
(***************************************************************************)
(* What can be known about an instruction word before it is executed, and   *)
(* how a fetch block's prediction is reconciled with that knowledge.        *)
(***************************************************************************)
EXTENDS RV32
Other == 0  CondBranch == 1  Indirect == 2  Jump == 3
Kind(i) == CASE Opc(i) = 111 -> Jump
             [] Opc(i) = 99 -> CondBranch
             [] Opc(i) = 103 -> Indirect
             [] OTHER -> Other
Target(i, pc) == IF Kind(i) = Jump THEN Add(pc, ImmJ(i)) ELSE IF Kind(i) = CondBranch THEN Add(pc, ImmB(i)) ELSE 0
\* words with the opcode of a jump that the ISA does not define: they trap, whatever was predicted
Reserved(i) == (Opc(i) = 99 /\ F3(i) \in {2, 3}) \/ (Opc(i) = 103 /\ F3(i) # 0)
DecodedOk(i, pc, k, t) ==
  IF Reserved(i) THEN k \in 0..3
  ELSE k = Kind(i) /\ (k \in {CondBranch, Jump} => t = Target(i, pc))

\* dirs, kinds, targets: sequences over the slots of a block; dirs are 0/1
Corrected(dirs, kinds) ==
  [n \in DOMAIN dirs |-> CASE kinds[n] = Other -> 0 [] kinds[n] = CondBranch -> dirs[n] [] OTHER -> 1]
FirstTaken(d) == IF \E n \in DOMAIN d : d[n] = 1 THEN CHOOSE n \in DOMAIN d : d[n] = 1 /\ \A j \in 1..(n - 1) : d[j] = 0
                 ELSE 0
\* the address to continue at: known exactly unless the first taken instruction is indirect
Continue(dirs, next, kinds, targets, seqn) ==
  LET d == Corrected(dirs, kinds)  f == FirstTaken(d)
  IN IF f = 0 THEN seqn ELSE IF kinds[f] = Indirect THEN next ELSE targets[f]
=============================================================================
