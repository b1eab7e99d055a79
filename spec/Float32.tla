------------------------------- MODULE Float32 -------------------------------
(***************************************************************************)
(* IEEE 754 single precision as RISC-V prescribes it: every operation is     *)
(* the exact result rounded once in the direction asked for, subnormals are *)
(* kept, and every NaN produced is the canonical one.                        *)
(*                                                                          *)
(* A finite non-zero value is sign, m, e with value m * 2^e and m in         *)
(* 2^23 .. 2^24-1 whatever the encoding.  Intermediate significands are      *)
(* naturals below 2^30 whose last bit is "or anything below it" (Jam), which *)
(* is all that rounding needs; sums and products too wide for that are held  *)
(* as 24-bit digits, least significant first.                               *)
(* Rounding directions: 0 nearest-even, 1 to zero, 2 down, 3 up, 4 nearest,  *)
(* ties away.                                                               *)
(***************************************************************************)
EXTENDS Word
LOCAL INSTANCE TLC

FExp(w) == Bits(w, 23, 8)
FMan(w) == w % 8388608
FNegS(w) == w < 0
FIsNaN(w) == FExp(w) = 255 /\ FMan(w) # 0
FIsSNaN(w) == FIsNaN(w) /\ FMan(w) < 4194304
FIsInf(w) == FExp(w) = 255 /\ FMan(w) = 0
FIsZero(w) == FExp(w) = 0 /\ FMan(w) = 0
FNaN == 2143289344                        \* 0x7fc00000
FSigned(neg, w) == IF neg THEN w + MinInt ELSE w
FInf(neg) == FSigned(neg, 2139095040)
FMax(neg) == FSigned(neg, 2139095039)
FZero(neg) == FSigned(neg, 0)
FFlip(w) == IF w < 0 THEN w - MinInt ELSE w + MinInt
FAbs(w) == IF w < 0 THEN w - MinInt ELSE w

\* number of bits of a natural
RECURSIVE FLen(_, _)
FLen(m, k) == IF m < P2[k + 1] THEN k ELSE FLen(m, k + 1)
BitLen(m) == IF m >= 65536 THEN FLen(m \div 65536, 1) + 16 ELSE FLen(m, 0)

FSig(w) == LET f == FMan(w) IN IF FExp(w) # 0 THEN f + 8388608 ELSE f * P2[25 - BitLen(f)]
FPow(w) == IF FExp(w) # 0 THEN FExp(w) - 150 ELSE BitLen(FMan(w)) - 173

\* m / 2^d, keeping whether anything was lost
Jam(m, d) == IF d <= 0 THEN m
             ELSE IF d >= 30 THEN IF m = 0 THEN 0 ELSE 1
             ELSE LET q == m \div P2[d + 1] IN IF m % P2[d + 1] # 0 /\ q % 2 = 0 THEN q + 1 ELSE q

\* the integer nearest r / 8 in the direction asked for
RoundUp(neg, r, rm) == CASE rm = 0 -> (r % 8) > 4 \/ ((r % 8) = 4 /\ ((r \div 8) % 2) = 1)
                         [] rm = 1 -> FALSE
                         [] rm = 2 -> neg /\ (r % 8) # 0
                         [] rm = 3 -> ~neg /\ (r % 8) # 0
                         [] rm = 4 -> (r % 8) >= 4
Rounded(neg, r, rm) == (r \div 8) + B2N(RoundUp(neg, r, rm))

\* m * 2^e (0 < m < 2^30) as a single-precision number
Pack(neg, m, e, rm) ==
  LET n == BitLen(m)
      x == e + n + 126                     \* biased exponent
      g == IF n <= 27 THEN m * P2[28 - n] ELSE Jam(m, n - 27)
      h == IF x >= 1 THEN g ELSE Jam(g, 1 - x)
      q == Rounded(neg, h, rm)
  IN IF x < 1 THEN FSigned(neg, q)
     ELSE LET c == q = 16777216
              y == x + B2N(c)
          IN IF y >= 255
             THEN IF rm \in {0, 4} \/ (rm = 2 /\ neg) \/ (rm = 3 /\ ~neg) THEN FInf(neg) ELSE FMax(neg)
             ELSE FSigned(neg, y * 8388608 + (IF c THEN 0 ELSE q - 8388608))

\* sums --------------------------------------------------------------------
FAdd(a, b, rm) ==
  IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF FIsInf(a) THEN IF FIsInf(b) /\ FNegS(a) # FNegS(b) THEN FNaN ELSE a
  ELSE IF FIsInf(b) THEN b
  ELSE IF FIsZero(a) /\ FIsZero(b) THEN IF FNegS(a) = FNegS(b) THEN a ELSE FZero(rm = 2)
  ELSE IF FIsZero(a) THEN b
  ELSE IF FIsZero(b) THEN a
  ELSE LET big == FAbs(a) >= FAbs(b)
           x == IF big THEN a ELSE b
           y == IF big THEN b ELSE a
           mx == FSig(x) * 16
           my == Jam(FSig(y) * 16, FPow(x) - FPow(y))
       IN IF FNegS(a) = FNegS(b) THEN Pack(FNegS(x), mx + my, FPow(x) - 4, rm)
          ELSE IF mx = my THEN FZero(rm = 2)
          ELSE Pack(FNegS(x), mx - my, FPow(x) - 4, rm)
FSub(a, b, rm) == IF FIsNaN(b) THEN FNaN ELSE FAdd(a, FFlip(b), rm)

\* products ----------------------------------------------------------------
\* 24 x 24 bits: <<high digit, low digit>>
Prod(p, q) == LET ph == p \div 4096  pl == p % 4096  qh == q \div 4096  ql == q % 4096
                  mid == ph * ql + pl * qh
                  lo == pl * ql + (mid % 4096) * 4096
              IN <<ph * qh + (mid \div 4096) + (lo \div 16777216), lo % 16777216>>
FMul(a, b, rm) ==
  LET neg == FNegS(a) # FNegS(b) IN
  IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF FIsInf(a) \/ FIsInf(b) THEN IF FIsZero(a) \/ FIsZero(b) THEN FNaN ELSE FInf(neg)
  ELSE IF FIsZero(a) \/ FIsZero(b) THEN FZero(neg)
  ELSE LET p == Prod(FSig(a), FSig(b))
       IN Pack(neg, p[1] * 32 + Jam(p[2], 19), FPow(a) + FPow(b) + 19, rm)

\* quotients and roots, a bit at a time --------------------------------------
RECURSIVE DivBits(_, _, _, _)
DivBits(r, d, q, n) == IF n = 0 THEN q * 2 + B2N(r # 0)
                       ELSE IF 2 * r >= d THEN DivBits(2 * r - d, d, 2 * q + 1, n - 1)
                       ELSE DivBits(2 * r, d, 2 * q, n - 1)
FDiv(a, b, rm) ==
  LET neg == FNegS(a) # FNegS(b) IN
  IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF FIsInf(a) THEN IF FIsInf(b) THEN FNaN ELSE FInf(neg)
  ELSE IF FIsInf(b) THEN FZero(neg)
  ELSE IF FIsZero(b) THEN IF FIsZero(a) THEN FNaN ELSE FInf(neg)
  ELSE IF FIsZero(a) THEN FZero(neg)
  ELSE LET ma == FSig(a)  mb == FSig(b)
           whole == B2N(ma >= mb)
       IN Pack(neg, DivBits(ma - whole * mb, mb, whole, 26), FPow(a) - FPow(b) - 27, rm)
\* root of v * 4^n, v < 2^26: two bits of the radicand per step
RECURSIVE RootBits(_, _, _, _)
RootBits(v, rem, root, n) ==
  IF n = 0 THEN root * 2 + B2N(rem # 0)
  ELSE LET top == IF n > 13 THEN (v \div P2[2 * (n - 14) + 1]) % 4 ELSE 0
           r == rem * 4 + top
           t == root * 4 + 1
       IN IF r >= t THEN RootBits(v, r - t, root * 2 + 1, n - 1) ELSE RootBits(v, r, root * 2, n - 1)
FSqrt(a, rm) ==
  IF FIsNaN(a) THEN FNaN
  ELSE IF FIsZero(a) THEN a
  ELSE IF FNegS(a) THEN FNaN
  ELSE IF FIsInf(a) THEN a
  ELSE LET e == FPow(a)
           odd == e % 2 = 1
       \* 26 digits of the root of a 52-bit radicand v * 2^26
       IN LET v == FSig(a) * (IF odd THEN 2 ELSE 1)
              e2 == IF odd THEN e - 1 ELSE e
          IN Pack(FALSE, RootBits(v, 0, 0, 26), (e2 - 26) \div 2 - 1, rm)

\* fused multiply-add ----------------------------------------------------------
\* four 24-bit digits, least significant first
Digit4(c, d) == LET q == d \div 24  r == d % 24
                    lo == (c % P2[25 - r]) * P2[r + 1]
                    hi == IF r = 0 THEN 0 ELSE c \div P2[25 - r]
                IN [k \in 1..4 |-> IF k = q + 1 THEN lo ELSE IF k = q + 2 THEN hi ELSE 0]
RECURSIVE Carry(_, _, _)
Carry(v, k, c) == IF k > 4 THEN v
                  ELSE LET s == v[k] + c IN Carry([v EXCEPT ![k] = s % 16777216], k + 1, s \div 16777216)
Sum4(u, v) == Carry([k \in 1..4 |-> u[k] + v[k]], 1, 0)
Dif4(u, v) == Carry([k \in 1..4 |-> u[k] - v[k]], 1, 0)
RECURSIVE Less4(_, _, _)
Less4(u, v, k) == IF k = 0 THEN FALSE ELSE IF u[k] # v[k] THEN u[k] < v[k] ELSE Less4(u, v, k - 1)
Zero4 == [k \in 1..4 |-> 0]
\* m * 2^e for a non-zero u of weight 2^e, with 5 more bits than the leading digit
Squeeze(neg, u, e, rm) ==
  LET t == CHOOSE k \in 1..4 : u[k] # 0 /\ \A j \in 1..4 : j > k => u[j] = 0
      nx == IF t > 1 THEN u[t - 1] ELSE 0
      low == \E j \in 1..4 : j < t - 1 /\ u[j] # 0
      \* leading digit and the next one, as many bits as fit
      sh == 29 - BitLen(u[t])
      m == IF sh <= 24 THEN u[t] * P2[sh + 1] + Jam(nx, 24 - sh) ELSE (u[t] * 16777216 + nx) * P2[sh - 23]
      n == IF low /\ m % 2 = 0 THEN m + 1 ELSE m
  IN Pack(neg, n, e + 24 * (t - 1) - sh, rm)
FMulAdd(a, b, c, rm) ==
  LET neg == FNegS(a) # FNegS(b) IN
  IF FIsNaN(a) \/ FIsNaN(b) \/ FIsNaN(c) THEN FNaN
  ELSE IF FIsInf(a) \/ FIsInf(b)
  THEN IF FIsZero(a) \/ FIsZero(b) \/ (FIsInf(c) /\ FNegS(c) # neg) THEN FNaN ELSE FInf(neg)
  ELSE IF FIsInf(c) THEN c
  ELSE IF FIsZero(a) \/ FIsZero(b)
  THEN IF FIsZero(c) THEN IF FNegS(c) = neg THEN c ELSE FZero(rm = 2) ELSE c
  ELSE LET p == Prod(FSig(a), FSig(b))
           ep == FPow(a) + FPow(b)
       IN IF FIsZero(c) THEN Pack(neg, p[1] * 32 + Jam(p[2], 19), ep + 19, rm)
          ELSE LET d == FPow(c) - ep
                   \* far above the product, or far below it: only that there is something there matters
                   u == CASE d > 60 -> Digit4(1, 0)
                          [] d < -30 -> [k \in 1..4 |-> CASE k = 2 -> p[2] [] k = 3 -> p[1] [] OTHER -> 0]
                          [] d < 0 -> LET l == Digit4(p[2], 30)  h == Digit4(p[1], 54) IN Sum4(l, h)
                          [] OTHER -> <<p[2], p[1], 0, 0>>
                   v == CASE d > 60 -> Digit4(FSig(c), 60)
                          [] d < -30 -> Digit4(1, 0)
                          [] d < 0 -> Digit4(FSig(c), 30 + d)
                          [] OTHER -> Digit4(FSig(c), d)
                   e == CASE d > 60 -> FPow(c) - 60
                          [] d < -30 -> ep - 24
                          [] d < 0 -> ep - 30
                          [] OTHER -> ep
               IN IF FNegS(c) = neg THEN Squeeze(neg, Sum4(u, v), e, rm)
                  ELSE IF u = v THEN FZero(rm = 2)
                  ELSE IF Less4(v, u, 4) THEN Squeeze(neg, Dif4(u, v), e, rm)
                  ELSE Squeeze(FNegS(c), Dif4(v, u), e, rm)

\* comparisons, selection, classes ------------------------------------------------
FLess(a, b) == IF FIsZero(a) /\ FIsZero(b) THEN FALSE
               ELSE IF FNegS(a) # FNegS(b) THEN FNegS(a)
               ELSE IF FNegS(a) THEN FAbs(b) < FAbs(a) ELSE a < b
FSame(a, b) == a = b \/ (FIsZero(a) /\ FIsZero(b))
FEq(a, b) == ~FIsNaN(a) /\ ~FIsNaN(b) /\ FSame(a, b)
FLt(a, b) == ~FIsNaN(a) /\ ~FIsNaN(b) /\ FLess(a, b)
FLe(a, b) == ~FIsNaN(a) /\ ~FIsNaN(b) /\ (FLess(a, b) \/ FSame(a, b))
\* -0 is below +0
FMinMax(max, a, b) ==
  IF FIsNaN(a) THEN IF FIsNaN(b) THEN FNaN ELSE b
  ELSE IF FIsNaN(b) THEN a
  ELSE LET lt == FLess(a, b) \/ (FIsZero(a) /\ FIsZero(b) /\ FNegS(a))
       IN IF lt # max THEN a ELSE b
FSgnj(f, a, b) == FSigned(CASE f = 0 -> FNegS(b) [] f = 1 -> ~FNegS(b) [] OTHER -> FNegS(a) # FNegS(b), FAbs(a))
FClass(a) == CASE FIsNaN(a) -> IF FIsSNaN(a) THEN 256 ELSE 512
               [] FIsInf(a) -> IF FNegS(a) THEN 1 ELSE 128
               [] FIsZero(a) -> IF FNegS(a) THEN 8 ELSE 16
               [] FExp(a) = 0 -> IF FNegS(a) THEN 4 ELSE 32
               [] OTHER -> IF FNegS(a) THEN 2 ELSE 64

\* integers ----------------------------------------------------------------------
MaxInt == 2147483647
\* signed: 32-bit two's complement, saturating; NaN is the largest
FToInt(a, unsigned, rm) ==
  LET neg == FNegS(a)
      top == IF unsigned THEN -1 ELSE MaxInt
      bottom == IF unsigned THEN 0 ELSE MinInt
      e == FPow(a)
      mag == IF e >= 0 THEN Sll(FSig(a), e) ELSE Rounded(neg, Jam(FSig(a) * 8, -e), rm)
  IN IF FIsNaN(a) THEN top
     ELSE IF FIsInf(a) THEN IF neg THEN bottom ELSE top
     ELSE IF FIsZero(a) THEN 0
     ELSE IF e > 8 THEN IF neg THEN bottom ELSE top
     ELSE IF unsigned THEN IF neg THEN 0 ELSE mag
     ELSE IF neg THEN IF mag < 0 THEN MinInt ELSE -mag
     ELSE IF mag < 0 THEN MaxInt ELSE mag
FFromInt(w, unsigned, rm) ==
  LET neg == ~unsigned /\ w < 0
      mag == IF neg THEN Neg(w) ELSE w
  IN IF w = 0 THEN 0
     ELSE IF mag >= 0 /\ mag < 536870912 THEN Pack(neg, mag, 0, rm)
     ELSE Pack(neg, LET q == Srl(mag, 4) IN IF mag % 16 # 0 /\ q % 2 = 0 THEN q + 1 ELSE q, 4, rm)

\* the instruction i on operands a, b, c; a dynamic rounding mode is nearest-even
FloatOp(i, a, b, c) ==
  LET f7 == Bits(i, 25, 7)  f3 == (i \div 4096) % 8  op == i % 128
      rs2 == (i \div 1048576) % 32
      rm == IF f3 = 7 THEN 0 ELSE f3
  IN CASE op = 67 -> FMulAdd(a, b, c, rm)
       [] op = 71 -> FMulAdd(a, b, FFlip(c), rm)
       [] op = 75 -> FMulAdd(FFlip(a), b, c, rm)
       [] op = 79 -> FMulAdd(FFlip(a), b, FFlip(c), rm)
       [] f7 = 0 -> FAdd(a, b, rm)
       [] f7 = 4 -> FSub(a, b, rm)
       [] f7 = 8 -> FMul(a, b, rm)
       [] f7 = 12 -> FDiv(a, b, rm)
       [] f7 = 44 -> FSqrt(a, rm)
       [] f7 = 16 -> FSgnj(f3, a, b)
       [] f7 = 20 -> FMinMax(f3 = 1, a, b)
       [] f7 = 80 -> B2N(CASE f3 = 2 -> FEq(a, b) [] f3 = 1 -> FLt(a, b) [] OTHER -> FLe(a, b))
       [] f7 = 96 -> FToInt(a, rs2 = 1, rm)
       [] f7 = 104 -> FFromInt(a, rs2 = 1, rm)
       [] f7 = 112 -> FClass(a)
       [] OTHER -> 0        \* reserved
=============================================================================
