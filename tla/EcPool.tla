------------------------------- MODULE EcPool -------------------------------
(***************************************************************************)
(* Curves and points for the generators.  Supersingular curves are reached *)
(* from y^2 = x^3 + 6x^2 + x by walks of 2-isogenies; torsion points are   *)
(* multiples of random points of those curves (which have (p+1)^2 points). *)
(***************************************************************************)
EXTENDS GenBase, Isogeny

HH(x) == <<BToHex(x[1]), BToHex(x[2])>>
PH(P) == IF P = Inf THEN <<>> ELSE <<HH(P[1]), HH(P[2])>>
PHs(seq) == [k \in 1..Len(seq) |-> PH(seq[k])]

E0A == F2N(6)
\* the curve after n steps of the walk number s
WalkCurve(s, n) == FoldLeft(LAMBDA A, k : WalkStep(A, RInt(s, k, 2)), E0A, [k \in 1..n |-> k])
RF2(s, i) == <<RBelow(s, 2 * i, PP), RBelow(s, 2 * i + 1, PP)>>
RNonZero(s, i) == LET x == RF2(s, i) IN IF x = F2Zero THEN F2One ELSE x
\* a curve that is nothing special
RandCurve(s) == LET A == RF2(s, 1) IN IF CurveOK(A) THEN A ELSE E0A

\* an integer below FProd(f) from remainders that are special for each prime power: 0, 1, -1, a multiple of the prime, a unit, anything
ResMix(s, i, f) ==
  LET D == FProd(f)
      part(k) == LET l == BNat(f[k][1])
                     m == BPow(l, f[k][2])
                     c == RInt(s, 64 * i + k, 7)
                     u == BAdd(BMul(BDiv(RBelow(s + 1, 64 * i + k, m), l), l), BOne)
                     r == IF c = 0 \/ c = 1 THEN BZero ELSE IF c = 2 THEN BOne ELSE IF c = 3 THEN BSub(m, BOne)
                          ELSE IF c = 4 THEN BMod(BMul(u, BPow(l, RInt(s + 2, 64 * i + k, f[k][2]))), m)
                          ELSE IF c = 5 THEN BMod(u, m) ELSE RBelow(s + 3, 64 * i + k, m)
                     o == BDiv(D, m)
                 IN BMul(o, BMod(BMul(r, BInvMod(BMod(o, m), m)), m))
  IN BMod(FoldLeft(LAMBDA acc, k : BAdd(acc, part(k)), BZero, [k \in 1..Len(f) |-> k]), D)
\* structured in its digits, structured in its remainders, or neither
Special(s, i, f) == LET c == RInt(s + 20, i, 3) IN IF c = 0 THEN ResMix(s + 21, i, f) ELSE IF c = 1 THEN Pat(s + 30, i, FProd(f)) ELSE RBelow(s + 50, i, FProd(f))

Liftable(A, x) == F2Legendre(CurveRhs(A, x)) >= 0
LiftAt(A, x, b) == LET y == F2Root(CurveRhs(A, x)) IN <<x, IF b = 0 THEN y ELSE F2Neg(y)>>
RECURSIVE RandPoint(_, _, _)
RandPoint(A, s, i) == LET x == RF2(s, i)
                      IN IF Liftable(A, x) THEN LiftAt(A, x, RInt(s + 1, i, 2)) ELSE RandPoint(A, s, i + 1)
RECURSIVE RandTwistX(_, _, _)
RandTwistX(A, s, i) == LET x == RF2(s, i) IN IF Liftable(A, x) THEN RandTwistX(A, s, i + 1) ELSE x

\* torsion of supersingular curves; f is a factored divisor of p+1
RECURSIVE TorsionPoint(_, _, _, _)
TorsionPoint(A, f, s, i) ==
  LET P == EcMul(A, RandPoint(A, s, 1000 * i), BDiv(PPlus1, FProd(f)))
  IN IF PointOrderIs(A, P, f) THEN P ELSE TorsionPoint(A, f, s, i + 1)
RECURSIVE SecondPoint(_, _, _, _, _)
SecondPoint(A, f, P, s, i) ==
  LET Q == TorsionPoint(A, f, s, 100 * i)
      D == FProd(f)
  IN IF \A k \in 1..Len(f) : LET c == BDiv(D, BNat(f[k][1]))
                             IN WeilSpec(A, EcMul(A, P, c), EcMul(A, Q, c), BNat(f[k][1])) # F2One
     THEN Q ELSE SecondPoint(A, f, P, s, i + 1)
TorBasis(A, f, s) == LET P == TorsionPoint(A, f, s, 1) IN <<P, SecondPoint(A, f, P, s + 3, 1)>>
Lin(A, P, Q, a, b) == EcAdd(A, EcMul(A, P, a), EcMul(A, Q, b))

\* points of order two
TwoTorsion(A) == LET d == F2Sub(F2Sqr(A), F2N(4))
                 IN IF F2Legendre(d) < 0 THEN << <<F2Zero, F2Zero>> >>
                    ELSE LET al == F2Half(F2Sub(F2Root(d), A))
                         IN << <<F2Zero, F2Zero>>, <<al, F2Zero>>, <<F2Inv(al), F2Zero>> >>
\* the points with x = 1, -1: they double to (0,0)
FourTorsion(A) == LET xs == SelectSeq(<<F2One, F2Neg(F2One)>>, LAMBDA x : Liftable(A, x))
                  IN [k \in 1..Len(xs) |-> LiftAt(A, xs[k], 0)]
\* real, imaginary and unit coordinates
AxisPoints(A, s) ==
  LET xs == SelectSeq([k \in 1..10 |-> IF k <= 4 THEN F2N(k + 1) ELSE IF k <= 7 THEN <<BZero, FRed(BNat(k - 4))>> ELSE <<FRed(BNat(k)), BOne>>],
                      LAMBDA x : Liftable(A, x))
  IN [k \in 1..Len(xs) |-> LiftAt(A, xs[k], k % 2)]

\* special points: every pair of them is tried
SpecialPoints(A, s) ==
  LET R == RandPoint(A, s, 1)
      Q == RandPoint(A, s + 7, 1)
      t2 == TwoTorsion(A)
      t4 == FourTorsion(A)
      ax == AxisPoints(A, s)
      base == <<Inf>> \o t2 \o t4 \o <<R, Q>> \o Sub(ax, s + 5, 3)
      sums == <<EcNeg(R), EcDbl(A, R), EcNeg(EcDbl(A, R)), EcMul(A, R, BNat(3)), EcAdd(A, R, Q), EcSub(A, R, Q), EcNeg(EcAdd(A, R, Q))>>
              \o [k \in 1..Len(t2) |-> EcAdd(A, R, t2[k])]
              \o [k \in 1..Len(t2) |-> EcNeg(EcAdd(A, R, t2[k]))]
              \o [k \in 1..Len(t4) |-> EcAdd(A, Q, t4[k])]
              \o [k \in 1..Len(t4) |-> EcNeg(t4[k])]
              \o [k \in 1..Len(t4) |-> EcAdd(A, t4[k], t2[Len(t2)])]
  IN base \o sums
\* projective scalings
ZChoice(s, i) == LET c == RInt(s, i, 6)
                 IN IF c = 0 THEN F2One ELSE IF c = 1 THEN F2Neg(F2One) ELSE IF c = 2 THEN F2I ELSE RNonZero(s + 2, i)
ZInfChoice(s, i) == IF RInt(s + 9, i, 5) = 0 THEN F2Zero ELSE ZChoice(s, i)
ZFor(P, s, i) == HH(IF P = Inf THEN ZInfChoice(s, i) ELSE ZChoice(s, i))

\* everything, on curves over very small fields
AllX(z) == LET p == BToInt(PP) IN [k \in 1..(p * p) |-> <<BNat((k - 1) % p), BNat((k - 1) \div p)>>]
AllPoints(A) == LET xs == SelectSeq(AllX(0), LAMBDA x : Liftable(A, x))
                IN <<Inf>> \o Concat([k \in 1..Len(xs) |->
                      LET P == LiftAt(A, xs[k], 0) IN IF P[2] = F2Zero THEN <<P>> ELSE <<P, EcNeg(P)>>])
=============================================================================
