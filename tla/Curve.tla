------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Montgomery curves y^2 = x^3 + A x^2 + x over Fp2 in affine coordinates. *)
(* A point is Inf == <<>> or a pair <<x, y>> of elements of Fp2.           *)
(***************************************************************************)
EXTENDS Field

Inf == <<>>

CurveRhs(A, x) == F2Mul(x, F2Add(F2Mul(x, F2Add(x, A)), F2One))
OnCurve(A, P) == P = Inf \/ F2Sqr(P[2]) = CurveRhs(A, P[1])
CurveOK(A) == F2Sqr(A) # F2N(4)           \* non-singular

EcNeg(P) == IF P = Inf THEN Inf ELSE <<P[1], F2Neg(P[2])>>

EcLine(A, l, P, x2) == LET x3 == F2Sub(F2Sub(F2Sub(F2Sqr(l), A), P[1]), x2)
                       IN <<x3, F2Sub(F2Mul(l, F2Sub(P[1], x3)), P[2])>>
EcDbl(A, P) ==
   IF P = Inf \/ P[2] = F2Zero THEN Inf
   ELSE LET xx == F2Sqr(P[1])
            l == F2Div(F2Add(F2Add(F2Add(xx, F2Add(xx, xx)), F2Mul(F2Add(A, A), P[1])), F2One),
                       F2Add(P[2], P[2]))
        IN EcLine(A, l, P, P[1])
EcAdd(A, P, Q) ==
   IF P = Inf THEN Q ELSE IF Q = Inf THEN P
   ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN EcDbl(A, P) ELSE Inf)
   ELSE EcLine(A, F2Div(F2Sub(Q[2], P[2]), F2Sub(Q[1], P[1])), P, Q[1])
EcSub(A, P, Q) == EcAdd(A, P, EcNeg(Q))

\* [n]P by double-and-add from the most significant bit; n a BigNat
EcMulPlain(A, P, n) ==
   FoldLeft(LAMBDA acc, b : IF b = 1 THEN EcAdd(A, EcDbl(A, acc), P) ELSE EcDbl(A, acc),
            Inf, BBitSeq(n))
\* (OVR): replaced by a Java method with the same values (see EcSelf); m = PP
BEcMul(A, P, n, m) == EcMulPlain(A, P, n)
EcMul(A, P, n) == BEcMul(A, P, n, PP)
EcDblN(A, P, k) == FoldLeft(LAMBDA acc, b : EcDbl(A, acc), P, [m \in 1..k |-> m])

\* j-invariant 256 (A^2-3)^3 / (A^2-4)
JInv(A) == LET a == F2Sqr(A)
               b == F2Sub(a, F2N(3))
           IN F2Mul(F2N(256), F2Div(F2Mul(b, F2Sqr(b)), F2Sub(a, F2N(4))))

\* -------------------------------------------------------------- pairings
\* value at R of the line through P and Q divided by the vertical at P+Q
MillerStep(A, P, Q, R) ==
   IF P = Inf \/ Q = Inf THEN F2One
   ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = F2Zero) THEN F2Sub(R[1], P[1])
   ELSE LET xx == F2Sqr(P[1])
            l == IF P = Q
                 THEN F2Div(F2Add(F2Add(F2Add(xx, F2Add(xx, xx)), F2Mul(F2Add(A, A), P[1])), F2One),
                            F2Add(P[2], P[2]))
                 ELSE F2Div(F2Sub(Q[2], P[2]), F2Sub(Q[1], P[1]))
            S == EcLine(A, l, P, Q[1])
        IN F2Div(F2Sub(F2Sub(R[2], P[2]), F2Mul(l, F2Sub(R[1], P[1]))), F2Sub(R[1], S[1]))
\* f_{n,P}(R): the function with divisor n(P) - ([n]P) - (n-1)(O), normalised at O
MillerPlain(A, P, R, n) ==
   FoldLeft(LAMBDA acc, b :
              LET V == acc[1]
                  f == acc[2]
                  f2 == F2Mul(F2Sqr(f), MillerStep(A, V, V, R))
                  V2 == EcDbl(A, V)
              IN IF b = 1 THEN <<EcAdd(A, V2, P), F2Mul(f2, MillerStep(A, V2, P, R))>>
                 ELSE <<V2, f2>>,
            <<P, F2One>>, Tail(BBitSeq(n)))[2]
BMiller(A, P, R, n, m) == MillerPlain(A, P, R, n)     \* (OVR)
Miller(A, P, R, n) == BMiller(A, P, R, n, PP)
\* Weil pairing of P, Q in E[n] when Q is not a multiple of P nor P of Q:
\* (-1)^n f_P(Q) / f_Q(P)
WeilIndep(A, P, Q, n) ==
   LET w == F2Div(Miller(A, P, Q, n), Miller(A, Q, P, n))
   IN IF BOdd(n) THEN F2Neg(w) ELSE w

\* Weil pairing of any P, Q with [n]P = [n]Q = O.  When Q is not a multiple of
\* P nor P of Q no intermediate value vanishes.  Otherwise the points are
\* dependent and the pairing is 1: either one of them is O, or they are equal,
\* or a line of one of the Miller loops passes through the other point, which
\* leaves a zero (a quotient by zero counts as zero) that nothing removes; or
\* both loops run without meeting the other point and the formula gives 1.
WeilSpec(A, P, Q, n) ==
   IF P = Inf \/ Q = Inf \/ P = Q THEN F2One
   ELSE LET a == Miller(A, P, Q, n)
            b == Miller(A, Q, P, n)
            w == F2Div(a, b)
        IN IF a = F2Zero \/ b = F2Zero THEN F2One
           ELSE IF BOdd(n) THEN F2Neg(w) ELSE w

\* --------------------------------------------------------------- orders
RECURSIVE FProd(_)
FProd(f) == IF f = <<>> THEN BOne ELSE BMul(BPow(BNat(f[1][1]), f[1][2]), FProd(Tail(f)))
\* the order of P is exactly the factored number f
PointOrderIs(A, P, f) ==
   LET D == FProd(f)
   IN /\ EcMul(A, P, D) = Inf
      /\ \A k \in 1..Len(f) : EcMul(A, P, BDiv(D, BNat(f[k][1]))) # Inf
F2OrderIs(v, f) ==
   LET D == FProd(f)
   IN /\ F2Pow(v, D) = F2One
      /\ \A k \in 1..Len(f) : F2Pow(v, BDiv(D, BNat(f[k][1]))) # F2One
\* P and Q (both of order f) generate the whole torsion subgroup: at every
\* prime l the points of order l below them have a non-trivial pairing
IsBasis(A, P, Q, f) ==
   LET D == FProd(f)
   IN /\ OnCurve(A, P) /\ OnCurve(A, Q)
      /\ PointOrderIs(A, P, f) /\ PointOrderIs(A, Q, f)
      /\ \A k \in 1..Len(f) :
            LET l == BNat(f[k][1])
                c == BDiv(D, l)
            IN WeilSpec(A, EcMul(A, P, c), EcMul(A, Q, c), l) # F2One

\* ------------------------------------------------- supersingular curves
\* [p+1]R = O for the given points; with random R this recognises the curves
\* with (p+1)^2 points
KilledByPPlus1(A, P) == EcMul(A, P, PPlus1) = Inf
\* the 2-isogeny with kernel (al, 0), al # 0: codomain y^2 = x^3 + A'x^2 + x
TwoIsogAlpha(A) ==        \* a root of x^2 + A x + 1
   F2Half(F2Sub(F2Root(F2Sub(F2Sqr(A), F2N(4))), A))
TwoIsogCodomain(al) == F2Mul(F2N(2), F2Sub(F2One, F2Mul(F2N(2), F2Sqr(al))))
\* one step of the 2-isogeny walk; b chooses the root
WalkStep(A, b) ==
   LET a1 == TwoIsogAlpha(A)
       al == IF b = 0 THEN a1 ELSE F2Inv(a1)
   IN TwoIsogCodomain(al)
=============================================================================
