------------------------------- MODULE FloatMC -------------------------------
(***************************************************************************)
(* The single-precision operations checked against the definition of        *)
(* correct rounding, operand by operand over a set of boundary values.      *)
(* A directed result r of an exact value x must satisfy r <= x < next(r)    *)
(* (down) and prev(r) < x <= r (up).  The sign of (x - r) is obtained       *)
(* without rounding from the residual of the fused operation: a residual    *)
(* rounded down is negative exactly when the exact one is.                  *)
(***************************************************************************)
EXTENDS Float32, FiniteSets
CONSTANTS Mans, Exps

VARIABLES a, b, c, k
vars == <<a, b, c, k>>

Pos == {e * 8388608 + m : e \in Exps, m \in Mans} \cup {FInf(FALSE), FNaN, 2143289345, 2139095041}
S == Pos \cup {FSigned(TRUE, w) : w \in Pos}
Fin(w) == FExp(w) # 255

\* the next value towards +infinity
Up(w) == IF w = MinInt THEN 1 ELSE IF w >= 0 THEN w + 1 ELSE w - 1
Down(w) == IF w = 0 THEN MinInt + 1 ELSE IF w >= 0 THEN w - 1 ELSE w + 1

Le(u, v) == FLe(u, v) = TRUE
\* sign of a * b + c, exactly
Sgn(x, y, z) == IF LET d == FMulAdd(x, y, z, 2) IN FNegS(d) /\ ~FIsZero(d) THEN -1
                ELSE IF LET u == FMulAdd(x, y, z, 3) IN ~FNegS(u) /\ ~FIsZero(u) THEN 1 ELSE 0
One == 1065353216

\* cmp(w): the sign of x - w for a finite w
Rounds(r(_), cmp(_)) ==
  LET dn == r(2)  up == r(3)  ne == r(0)  tz == r(1)  mm == r(4) IN
  /\ ne \in {dn, up} /\ mm \in {dn, up} /\ tz \in {dn, up}
  /\ dn = up \/ (FIsZero(dn) /\ FIsZero(up)) \/ up = Up(dn) \/ Down(up) = dn
  /\ Fin(dn) => cmp(dn) >= 0
  /\ (Fin(dn) /\ Fin(Up(dn))) => cmp(Up(dn)) < 0
  /\ Fin(up) => cmp(up) <= 0
  /\ (Fin(up) /\ Fin(Down(up))) => cmp(Down(up)) > 0
  /\ FAbs(tz) <= FAbs(dn) /\ FAbs(tz) <= FAbs(up)
  \* an exact value rounds to itself; a tie goes to the even one, or away from zero
  /\ (Fin(dn) /\ cmp(dn) = 0) => (FSame(ne, dn) /\ FSame(up, dn) /\ FSame(mm, dn))
  /\ ne # mm => (ne % 2 = 0 /\ FAbs(mm) > FAbs(ne))

AddLaws == /\ \A rm \in 0..4 : FAdd(a, b, rm) = FAdd(b, a, rm)
           /\ \A rm \in 0..4 : FAdd(a, b, rm) = FMulAdd(a, One, b, rm)
           /\ \A rm \in 0..4 : FSub(a, b, rm) = FAdd(a, IF FIsNaN(b) THEN FNaN ELSE FFlip(b), rm)
           /\ (Fin(a) /\ Fin(b)) => FIsZero(FSub(a, b, 0)) = FSame(a, b)
MulLaws == /\ \A rm \in 0..4 : FMul(a, b, rm) = FMul(b, a, rm)
           /\ \A rm \in 0..4 : LET p == FMul(a, b, rm) IN
                (FIsZero(p) /\ (FIsZero(a) \/ FIsZero(b))) \/ p = FMulAdd(a, b, FZero(FIsNaN(p) \/ FNegS(p)), rm)
           /\ (Fin(a) /\ Fin(b) /\ ~FIsZero(a) /\ ~FIsZero(b)) =>
                Rounds(LAMBDA rm : FMul(a, b, rm), LAMBDA w : Sgn(a, b, FFlip(w)))
DivLaws == (Fin(a) /\ Fin(b) /\ ~FIsZero(b) /\ ~FIsZero(a)) =>
             Rounds(LAMBDA rm : FDiv(a, b, rm),
                    LAMBDA w : Sgn(FFlip(w), b, a) * (IF FNegS(b) THEN -1 ELSE 1))
SqrtLaws == (Fin(a) /\ a > 0) => Rounds(LAMBDA rm : FSqrt(a, rm), LAMBDA w : IF w < 0 THEN 1 ELSE -Sgn(w, w, FFlip(a)))
Opp(rm) == CASE rm = 2 -> 3 [] rm = 3 -> 2 [] OTHER -> rm
Mir(u, v) == u = v \/ (~FIsNaN(u) /\ u = FFlip(v))
SymLaws == ~(FIsNaN(a) \/ FIsNaN(b)) => \A rm \in 0..4 :
             /\ LET r == FAdd(a, b, rm) IN FIsZero(r) \/ Mir(FAdd(FFlip(a), FFlip(b), Opp(rm)), r)
             /\ Mir(FMul(FFlip(a), b, Opp(rm)), FMul(a, b, rm))
             /\ Mir(FDiv(FFlip(a), b, Opp(rm)), FDiv(a, b, rm))
SymFma == ~(FIsNaN(a) \/ FIsNaN(b) \/ FIsNaN(c)) => \A rm \in 0..4 :
             LET r == FMulAdd(a, b, c, rm) IN FIsZero(r) \/ Mir(FMulAdd(FFlip(a), b, FFlip(c), Opp(rm)), r)
FmaLaws == /\ \A rm \in 0..4 : FMulAdd(a, b, c, rm) = FMulAdd(b, a, c, rm)
           \* directed results bracket every other mode, and are adjacent
           /\ LET dn == FMulAdd(a, b, c, 2)  up == FMulAdd(a, b, c, 3) IN
              ~FIsNaN(dn) =>
                /\ Le(dn, up)
                /\ \A rm \in {0, 1, 4} : FMulAdd(a, b, c, rm) \in {dn, up, FAbs(dn), FSigned(TRUE, FAbs(dn))}
                /\ FSame(dn, up) \/ up = Up(dn) \/ Down(up) = dn
           \* monotone in the addend
           /\ (Fin(a) /\ Fin(b) /\ Fin(c) /\ Fin(Up(c))) =>
                \A rm \in 0..4 : Le(FMulAdd(a, b, c, rm), FMulAdd(a, b, Up(c), rm))
           \* exact when the product is: the fused result is then the rounded sum
           /\ (Fin(a) /\ Fin(b) /\ FMul(a, b, 2) = FMul(a, b, 3)) =>
                \A rm \in 0..4 : LET r == FMulAdd(a, b, c, rm) IN r = FAdd(FMul(a, b, rm), c, rm)
CmpLaws == /\ (FEq(a, b) \/ FLt(a, b) \/ FLt(b, a)) = ~(FIsNaN(a) \/ FIsNaN(b))
           /\ ~(FLt(a, b) /\ FLt(b, a)) /\ ~(FEq(a, b) /\ FLt(a, b))
           /\ FLe(a, b) = (FLt(a, b) \/ FEq(a, b))
           /\ (Fin(a) /\ Fin(b)) => FLt(a, b) = LET d == FSub(a, b, 0) IN FNegS(d) /\ ~FIsZero(d)
           /\ LET lo == FMinMax(FALSE, a, b)  hi == FMinMax(TRUE, a, b) IN
              IF FIsNaN(a) /\ FIsNaN(b) THEN lo = FNaN /\ hi = FNaN
              ELSE IF FIsNaN(a) THEN lo = b /\ hi = b
              ELSE IF FIsNaN(b) THEN lo = a /\ hi = a
              ELSE {lo, hi} = {a, b} /\ FLe(lo, hi)
IntLaws == \A rm \in 0..4 :
  /\ \A u \in BOOLEAN :
       \* integers below 2^24 convert exactly both ways
       LET w == FFromInt(c, u, rm) IN
       (FAbs(w) < 1266679808) => FToInt(w, u, rm) = c
  /\ (Fin(a) /\ FAbs(a) < 1266679808) =>
       LET i == FToInt(a, FALSE, rm)  f == FFromInt(i, FALSE, rm)  d == FSub(a, f, 1) IN
       /\ FAbs(d) < One
       /\ (rm = 2 => (FIsZero(d) \/ ~FNegS(d))) /\ (rm = 3 => (FIsZero(d) \/ FNegS(d)))
       /\ (rm \in {0, 4} => FAbs(d) <= 1056964608)
       /\ (rm = 0 /\ FAbs(d) = 1056964608 /\ FSub(a, f, 2) = FSub(a, f, 3)) => i % 2 = 0
       /\ (rm = 1 => FIsZero(d) \/ FNegS(d) = FNegS(a))

\* on small integers the fused operation is integer arithmetic
ExactLaws == LET x == ((a \div 512) % 32768) - 16384
                 y == ((b \div 16) % 32768) - 16384
                 z == (c \div 2)
                 F(w, rm) == FFromInt(w, FALSE, rm)
             IN \A rm \in 0..4 : LET r == FMulAdd(F(x, rm), F(y, rm), F(z - (z % 256), rm), rm)
                                    s == x * y + z - (z % 256)
                                IN (F(z - (z % 256), 2) = F(z - (z % 256), 3)) =>
                                     IF s = 0 THEN FIsZero(r) ELSE r = F(s, rm)

Init == a \in S /\ b = 0 /\ c = 0 /\ k = 0
Next == \/ k = 0 /\ b' \in S /\ k' = 1 /\ UNCHANGED <<a, c>>
        \/ k = 1 /\ c' \in S /\ k' = 2 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

One1 == k = 0 => (SqrtLaws /\ LET t == {j \in 0..9 : Bits(FClass(a), j, 1) = 1} IN Cardinality(t) = 1)
Two == k = 1 => (AddLaws /\ MulLaws /\ DivLaws /\ SymLaws /\ CmpLaws)
Three == k = 2 => (FmaLaws /\ SymFma /\ ExactLaws)
Conv == (k = 2 /\ b = 0) => IntLaws
=============================================================================
