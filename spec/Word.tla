-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 32-bit machine words.  A word is the integer of its two's-complement     *)
(* reading, -2^31 .. 2^31-1 (TLC integers are 32 bits wide and trap on      *)
(* overflow), so signed order is <, and arithmetic that may wrap goes       *)
(* through 16-bit halves.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
        8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>
Pow(n) == P2[n + 1]                       \* 2^n, n \in 0..30
MinInt == -2147483647 - 1

Lo(w) == w % 65536
Hi(w) == (w \div 65536) % 65536
Mk(h, l) == IF h >= 32768 THEN (h - 65536) * 65536 + l ELSE h * 65536 + l

\* field of n bits starting at bit lo (lo + n <= 32, n <= 30)
Bits(w, lo, n) == IF lo = 31 THEN IF w < 0 THEN 1 ELSE 0
                  ELSE (w \div P2[lo + 1]) % P2[n + 1]
Bit(w, i) == IF i = 31 THEN w < 0 ELSE (w \div P2[i + 1]) % 2 = 1
B2N(b) == IF b THEN 1 ELSE 0

Add(a, b) ==
  IF (a < 0) # (b < 0) THEN a + b
  ELSE LET l == Lo(a) + Lo(b)
           h == Hi(a) + Hi(b) + (l \div 65536)
       IN Mk(h % 65536, l % 65536)
WNot(w) == -1 - w
Neg(w) == IF w = MinInt THEN w ELSE -w
Sub(a, b) == Add(Add(a, WNot(b)), 1)

\* bitwise operators; Bitwise is defined on naturals, so go by halves
WAnd(a, b) == IF a >= 0 /\ b >= 0 THEN a & b
             ELSE Mk(Hi(a) & Hi(b), Lo(a) & Lo(b))
WOr(a, b)  == IF a >= 0 /\ b >= 0 THEN a | b
             ELSE Mk(Hi(a) | Hi(b), Lo(a) | Lo(b))
WXor(a, b) == IF a >= 0 /\ b >= 0 THEN a ^^ b
             ELSE Mk(Hi(a) ^^ Hi(b), Lo(a) ^^ Lo(b))
AndNot(a, b) == WAnd(a, WNot(b))
\* merge: bits of m from b, the rest from a
Merge(a, b, m) == WOr(AndNot(a, m), WAnd(b, m))

LtS(a, b) == a < b
LtU(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0

Sll(w, n) ==
  IF n = 0 THEN w
  ELSE IF n < 16
       THEN LET l == Lo(w) * P2[n + 1]
                h == ((Hi(w) * P2[n + 1]) % 65536) + (l \div 65536)
            IN Mk(h % 65536, l % 65536)
       ELSE Mk((Lo(w) * P2[n - 15]) % 65536, 0)
Srl(w, n) ==
  IF n = 0 THEN w
  ELSE IF w >= 0 THEN IF n = 31 THEN 0 ELSE w \div P2[n + 1]
  ELSE IF n < 16
       THEN Mk(Hi(w) \div P2[n + 1],
               (Lo(w) \div P2[n + 1]) + (Hi(w) % P2[n + 1]) * P2[17 - n])
       ELSE Hi(w) \div P2[n - 15]
Sra(w, n) == IF n = 31 THEN (IF w < 0 THEN -1 ELSE 0) ELSE w \div P2[n + 1]
Rol(w, n) == IF n = 0 THEN w ELSE WOr(Sll(w, n), Srl(w, 32 - n))
Ror(w, n) == IF n = 0 THEN w ELSE WOr(Srl(w, n), Sll(w, 32 - n))
BitMask(n) == IF n = 31 THEN MinInt ELSE P2[n + 1]

SextB(w) == LET b == w % 256 IN IF b >= 128 THEN b - 256 ELSE b
SextH(w) == LET b == w % 65536 IN IF b >= 32768 THEN b - 65536 ELSE b

\* multiplication ----------------------------------------------------------
\* 16 x 16 -> <<hi16, lo16>>
M16(a, b) == LET p == a * (b % 256)
                 q == a * (b \div 256)
                 s == p + (q % 256) * 256
             IN <<(s \div 65536) + (q \div 256), s % 65536>>
\* 32 x 32 -> <<hi word, lo word>>, unsigned
MulU64(a, b) ==
  LET ll == M16(Lo(a), Lo(b))
      lh == M16(Lo(a), Hi(b))
      hl == M16(Hi(a), Lo(b))
      hh == M16(Hi(a), Hi(b))
      r1 == ll[1] + lh[2] + hl[2]
      r2 == lh[1] + hl[1] + hh[2] + (r1 \div 65536)
      r3 == hh[1] + (r2 \div 65536)
  IN <<Mk(r3 % 65536, r2 % 65536), Mk(r1 % 65536, ll[2])>>
Mul(a, b) == MulU64(a, b)[2]
MulHU(a, b) == MulU64(a, b)[1]
MulHSU(a, b) == LET h == MulHU(a, b) IN IF a < 0 THEN Sub(h, b) ELSE h
MulH(a, b) == LET h == MulHSU(a, b) IN IF b < 0 THEN Sub(h, a) ELSE h

\* division ----------------------------------------------------------------
\* unsigned, b # 0: <<quotient, remainder>>
DivModU(a, b) ==
  IF a >= 0 /\ b > 0 THEN <<a \div b, a % b>>
  ELSE IF b < 0 THEN IF LtU(a, b) THEN <<0, a>> ELSE <<1, Sub(a, b)>>
  ELSE LET h == Srl(a, 1)
           q == h \div b
           r == Add(Sll(h % b, 1), a % 2)
       IN IF LtU(r, b) THEN <<Sll(q, 1), r>>
          ELSE <<Add(Sll(q, 1), 1), Sub(r, b)>>
DivU(a, b) == IF b = 0 THEN -1 ELSE DivModU(a, b)[1]
RemU(a, b) == IF b = 0 THEN a ELSE DivModU(a, b)[2]
AbsW(a) == IF a < 0 THEN Neg(a) ELSE a       \* as an unsigned word
DivS(a, b) == IF b = 0 THEN -1
              ELSE LET q == DivModU(AbsW(a), AbsW(b))[1]
                   IN IF (a < 0) # (b < 0) THEN Neg(q) ELSE q
RemS(a, b) == IF b = 0 THEN a
              ELSE LET r == DivModU(AbsW(a), AbsW(b))[2]
                   IN IF a < 0 THEN Neg(r) ELSE r

\* bit counting, carry-less multiplication ---------------------------------
RECURSIVE Pop16(_)
Pop16(n) == IF n = 0 THEN 0 ELSE (n % 2) + Pop16(n \div 2)
Cpop(w) == Pop16(Hi(w)) + Pop16(Lo(w))
RECURSIVE Clz16(_, _)
Clz16(n, k) == IF k = 0 THEN 0 ELSE IF n >= P2[k] THEN 0 ELSE 1 + Clz16(n, k - 1)
Clz(w) == IF Hi(w) # 0 THEN Clz16(Hi(w), 16) ELSE 16 + Clz16(Lo(w), 16)
RECURSIVE Ctz16(_, _)
Ctz16(n, k) == IF k = 0 THEN 0 ELSE IF n % 2 = 1 THEN 0 ELSE 1 + Ctz16(n \div 2, k - 1)
Ctz(w) == IF Lo(w) # 0 THEN Ctz16(Lo(w), 16) ELSE 16 + Ctz16(Hi(w), 16)

RECURSIVE ClmulR(_, _, _), ClmulhR(_, _, _)
ClmulR(a, b, i) == IF i = 32 THEN 0
                   ELSE LET r == ClmulR(a, b, i + 1)
                        IN IF Bit(b, i) THEN WXor(Sll(a, i), r) ELSE r
Clmul(a, b) == ClmulR(a, b, 0)
ClmulhR(a, b, i) == IF i = 32 THEN 0
                    ELSE LET r == ClmulhR(a, b, i + 1)
                         IN IF Bit(b, i) THEN WXor(Srl(a, 32 - i), r) ELSE r
Clmulh(a, b) == ClmulhR(a, b, 1)
\* clmulr = bits 62..31 of the 63-bit product
Clmulr(a, b) == WOr(Sll(Clmulh(a, b), 1), B2N(Clmul(a, b) < 0))

Rev8(w) == Mk((Lo(w) % 256) * 256 + Lo(w) \div 256, (Hi(w) % 256) * 256 + Hi(w) \div 256)
OrcByte(b) == IF b = 0 THEN 0 ELSE 255
Orcb(w) == Mk(OrcByte(Hi(w) \div 256) * 256 + OrcByte(Hi(w) % 256),
              OrcByte(Lo(w) \div 256) * 256 + OrcByte(Lo(w) % 256))

MinS(a, b) == IF a < b THEN a ELSE b
MaxS(a, b) == IF a < b THEN b ELSE a
MinU(a, b) == IF LtU(a, b) THEN a ELSE b
MaxU(a, b) == IF LtU(a, b) THEN b ELSE a

\* byte strobe (4 bits) to bit mask
StrbMask(s) == Mk((IF (s \div 8) % 2 = 1 THEN 65280 ELSE 0) + (IF (s \div 4) % 2 = 1 THEN 255 ELSE 0),
                  (IF (s \div 2) % 2 = 1 THEN 65280 ELSE 0) + (IF s % 2 = 1 THEN 255 ELSE 0))

\* 64-bit quantities as <<hi, lo>> words
Add64(a, b) == LET l == Add(a[2], b[2])
                   c == IF LtU(l, a[2]) THEN 1 ELSE 0
               IN <<Add(Add(a[1], b[1]), c), l>>
Sub64(a, b) == LET l == Sub(a[2], b[2])
                   c == IF LtU(a[2], b[2]) THEN 1 ELSE 0
               IN <<Sub(Sub(a[1], b[1]), c), l>>
LeU64(a, b) == \/ LtU(a[1], b[1])
               \/ a[1] = b[1] /\ ~LtU(b[2], a[2])
=============================================================================
