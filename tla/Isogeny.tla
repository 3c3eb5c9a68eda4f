------------------------------ MODULE Isogeny -------------------------------
(***************************************************************************)
(* Odd-degree isogenies of Montgomery curves by Velu's formulas, in the    *)
(* normalisation that keeps (0,0) and the shape y^2 = x^3 + A x^2 + x:     *)
(* for an odd prime l, a point K of order l and x_i = x([i]K),             *)
(*   f(x) = x * Prod ((x x_i - 1) / (x - x_i))^2,                          *)
(*   A'   = (6 Sum 1/x_i - 6 Sum x_i + A) * (Prod x_i)^2,                  *)
(*   (x, y) |-> (f(x), y * Prod x_i * f'(x)),   i = 1..(l-1)/2.            *)
(* Isogenies of composite degree are compositions.                         *)
(***************************************************************************)
EXTENDS Curve

\* The definitions marked (OVR) are replaced by Java methods with the same values (EcSelf).
\* x([1]K), .., x([(l-1)/2]K)
KernelXPlain(A, K, l) ==
   FoldLeft(LAMBDA acc, i : LET T == EcAdd(A, acc[1], K) IN <<T, Append(acc[2], T[1])>>,
            <<Inf, <<>>>>, [i \in 1..((l - 1) \div 2) |-> i])[2]
BKernelX(A, K, l, m) == KernelXPlain(A, K, l)          \* (OVR)
KernelX(A, K, l) == BKernelX(A, K, l, PP)
VeluCodomainPlain(A, xs) ==
   LET s == FoldLeft(LAMBDA acc, x : <<F2Add(acc[1], F2Inv(x)), F2Add(acc[2], x), F2Mul(acc[3], x)>>,
                     <<F2Zero, F2Zero, F2One>>, xs)
       six == F2N(6)
   IN F2Mul(F2Add(F2Mul(six, F2Sub(s[1], s[2])), A), F2Sqr(s[3]))
BVeluCodomain(A, xs, m) == VeluCodomainPlain(A, xs)    \* (OVR)
VeluCodomain(A, xs) == BVeluCodomain(A, xs, PP)
\* f(x)/x, the sum of the logarithmic derivative of f without the term 1/x, Prod x_i
VeluTermsPlain(x, xs) ==
   FoldLeft(LAMBDA acc, xi :
              LET n == F2Sub(F2Mul(x, xi), F2One)
                  d == F2Sub(x, xi)
                  \* n'/n - d'/d = (xi d - n)/(n d)
                  q == F2Inv(F2Mul(n, d))
              IN <<F2Mul(acc[1], F2Sqr(F2Mul(n, F2Mul(n, q)))),
                   F2Add(acc[2], F2Mul(F2Sub(F2Mul(xi, d), n), q)),
                   F2Mul(acc[3], xi)>>,
            <<F2One, F2Zero, F2One>>, xs)
BVeluTerms(x, xs, m) == VeluTermsPlain(x, xs)          \* (OVR)
VeluTerms(x, xs) == BVeluTerms(x, xs, PP)
\* image of a point; the points (1/x_i, .) map to the point (0,0), like (0,0)
VeluImage(P, xs) ==
   IF P = Inf THEN Inf
   ELSE LET x == P[1]
        IN IF \E k \in 1..Len(xs) : xs[k] = x THEN Inf
           ELSE IF x = F2Zero \/ \E k \in 1..Len(xs) : F2Mul(xs[k], x) = F2One THEN <<F2Zero, F2Zero>>
           ELSE LET t == VeluTerms(x, xs)
                    f == F2Mul(x, t[1])
                    df == F2Mul(f, F2Add(F2Inv(x), F2Add(t[2], t[2])))
                IN <<f, F2Mul(F2Mul(P[2], t[3]), df)>>

\* Steps of the isogeny with kernel <K>, K of order FProd(f): the primes of f
\* with multiplicity.  The state is <<A, K, points>>, the order of K that is
\* left is the product of the remaining primes.
PrimeList(f) == FoldLeft(LAMBDA acc, le : acc \o [k \in 1..le[2] |-> le[1]], <<>>, f)
ChainStep(st, l, rest) ==
   LET A == st[1]
       xs == KernelX(A, EcMul(A, st[2], rest), l)
   IN <<VeluCodomain(A, xs), VeluImage(st[2], xs), [k \in 1..Len(st[3]) |-> VeluImage(st[3][k], xs)]>>
\* <<codomain, image of K, images>>
IsoChain(A, K, f, pts) ==
   LET ps == PrimeList(f)
       r == FoldLeft(LAMBDA acc, l : LET rest == BDiv(acc[2], BNat(l))
                                     IN <<ChainStep(acc[1], l, rest), rest>>,
                     <<<<A, K, pts>>, FProd(f)>>, ps)
   IN r[1]

\* isomorphisms of Montgomery curves over Fp2: a rational point (al, 0) of order
\* two moves to (0,0), then x is divided by s with s^2 = 3 al^2 + 2 A al + 1 and
\* y is multiplied by w with w^2 = 1/s^3
IsoCandidates(A) ==
   LET d2 == F2Sub(F2Sqr(A), F2N(4))
       d == F2Root(d2)
       als == <<F2Zero>> \o (IF F2Legendre(d2) < 0 THEN <<>> ELSE << F2Half(F2Sub(d, A)), F2Half(F2Neg(F2Add(d, A))) >>)
       S2(al) == F2Add(F2Add(F2Mul(F2N(3), F2Sqr(al)), F2Mul(F2Add(A, A), al)), F2One)
       M(al, s) == LET u == F2Inv(s)
                       w2 == F2Mul(u, F2Sqr(u))
                   IN [A |-> F2Mul(F2Add(F2Mul(F2N(3), al), A), u), u |-> u, v |-> F2Neg(F2Mul(al, u)), w2 |-> w2]
       ok == {k \in 1..Len(als) : F2Legendre(S2(als[k])) > 0}
       all == UNION {LET s == F2Root(S2(als[k])) IN {M(als[k], s), M(als[k], F2Neg(s))} : k \in ok}
   IN {c \in all : F2Legendre(c.w2) > 0}
\* Q is the image of P under the candidate c with y scaled by w
IsoImage(c, w, P) == IF P = Inf THEN Inf ELSE <<F2Add(F2Mul(c.u, P[1]), c.v), F2Mul(w, P[2])>>
IsoMatches(c, w, pts, ims) == \A k \in 1..Len(pts) : ims[k] = IsoImage(c, w, pts[k])
=============================================================================
