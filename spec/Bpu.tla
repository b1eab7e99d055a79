--------------------------------- MODULE Bpu ---------------------------------
(***************************************************************************)
(* The branch predictor seen as a machine: histories that follow the        *)
(* conditional branches (as fetched and as retired), a return stack of each *)
(* kind, a queue of training per bank, tables that may forget but never     *)
(* invent, and the address fetched next.                                    *)
(***************************************************************************)
EXTENDS Word, FiniteSets
Banks == 4
Depth == 16                     \* return stack
QDepth == 500
Width == 4
Line == 64
\* kinds of instruction
NonCtl == 4
Cond == 0
Call == 1
Ret == 2
Ind == 3
Jal == 5
Jumps == {Call, Ret, Ind, Jal}

Bank(pc) == Bits(pc, 2, 2)
\* instructions of the fetch block at base: up to Width, not past the line
Slots(base) == LET k == (Line - (base % Line)) \div 4 IN IF k < Width THEN k ELSE Width
After(base) == Add(base, 4 * Slots(base))

(* ---- history: the 128 latest outcomes, newest in bit 0 of the first word; a hash of the path; the return stack ---- *)
NoHist == [g |-> <<0, 0, 0, 0>>, p |-> 0, r |-> <<>>]
Top(w) == IF w < 0 THEN 1 ELSE 0
Shift(g, d) == <<WOr(Sll(g[1], 1), d), WOr(Sll(g[2], 1), Top(g[1])), WOr(Sll(g[3], 1), Top(g[2])), WOr(Sll(g[4], 1), Top(g[3]))>>
Path(p, pc, d) ==
  LET a == Srl(pc, 2)
      b == WXor(a, Srl(a, 5))
      c == WXor(b, Srl(b, 11))
  IN WXor(WXor(2 * p, c), IF d = 1 THEN 31161 ELSE 31765) % 65536
Outcome(h, pc, d) == [h EXCEPT !.g = Shift(@, d), !.p = Path(@, pc, d)]
PushR(h, a) == [h EXCEPT !.r = SubSeq(<<a>> \o @, 1, IF Len(@) < Depth THEN Len(@) + 1 ELSE Depth)]
PopR(h) == [h EXCEPT !.r = IF @ = <<>> THEN <<>> ELSE Tail(@)]
Stack(h, type, pc) == IF type = Call THEN PushR(h, Add(pc, 4)) ELSE IF type = Ret THEN PopR(h) ELSE h

\* the n bits of history starting at age a
Field(g, a, n) ==
  LET w == a \div 32
      o == a % 32
  IN IF o + n <= 32 THEN Srl(Sll(g[w + 1], 32 - o - n), 32 - n)
     ELSE LET k == 32 - o IN Srl(g[w + 1], o) + (g[w + 2] % Pow(n - k)) * Pow(k)
RECURSIVE Fold(_, _, _, _)
\* the latest len outcomes folded into n bits, age a at position a mod n
Fold(g, a, len, n) == IF a >= len THEN 0
                      ELSE WXor(Field(g, a, IF len - a < n THEN len - a ELSE n), Fold(g, a + n, len, n))
HistLen == <<8, 13, 32, 119>>
FoldLen == <<8, 11, 11, 11, 8, 8, 8, 8, 7, 7, 7, 7>>
Folds(g) == [k \in 1..12 |-> Fold(g, 0, HistLen[((k - 1) % 4) + 1], FoldLen[k])]
=============================================================================
