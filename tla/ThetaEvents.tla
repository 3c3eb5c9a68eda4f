----------------------------- MODULE ThetaEvents ------------------------------
(***************************************************************************)
(* What the two-dimensional chain has to do.  A case is an isogeny diamond *)
(* (Kani): f of degree F and g of degree G with common domain E, coprime,  *)
(* F + G = 2^n, h : E -> X with kernel generated by those of f and g.  The *)
(* map with kernel {(f(T), g(T)) : T in E[2^n]} is, up to isomorphism,     *)
(*    Phi : Ea x Eb -> E x X,   (f(U), g(V)) |-> ([F]U + [G]V, h(V - U)).  *)
(* The chain works on Kummer varieties, so every component of an image is  *)
(* determined up to its sign, and the two curves may come in either order. *)
(***************************************************************************)
EXTENDS EcEvents

\* ims (trace form) are, up to a sign each, the images of pts (on the curve A)
\* under one isomorphism from the curve A to the curve B
KummerImages(A, B, pts, ims) ==
   \E c \in {d \in IsoCandidates(A) : d.A = B} :
      \A k \in 1..Len(pts) :
         IF pts[k] = Inf THEN ims[k] = <<>>
         ELSE /\ ims[k] # <<>>
              /\ LET P == Pt(ims[k])
                 IN P[1] = F2Add(F2Mul(c.u, pts[k][1]), c.v) /\ OnCurve(B, P)
Column(s, j) == [k \in 1..Len(s) |-> s[k][j]]
\* r = <<A3, A4, images>>; expected: curve E with points es, curve X with points xs
ProductOK(r, AE, es, AX, xs) ==
   LET B1 == G(r[1])
       B2 == G(r[2])
       one == Column(r[3], 1)
       two == Column(r[3], 2)
   IN /\ Len(r[3]) = Len(es)
      /\ CurveOK(B1) /\ CurveOK(B2)
      /\ \/ KummerImages(AE, B1, es, one) /\ KummerImages(AX, B2, xs, two)
         \/ KummerImages(AX, B1, xs, one) /\ KummerImages(AE, B2, es, two)
\* the same curves and, up to sign, the same images
SameProduct(r, s) ==
   /\ r[1] = s[1] /\ r[2] = s[2] /\ Len(r[3]) = Len(s[3])
   /\ \A k \in 1..Len(r[3]) : \A j \in {1, 2} :
         LET a == r[3][k][j]
             b == s[3][k][j]
         IN a = b \/ (a # <<>> /\ b = PtHN(Pt(a)))

\* a strategy for a chain of n steps: double b times, solve n-b steps there,
\* push through, solve the remaining b steps
\* the length of the prefix of s that is a strategy for n, or a number above Len(s)
RECURSIVE StratLen(_, _)
StratLen(n, s) ==
   IF n = 1 THEN 0
   ELSE IF s = <<>> \/ s[1] < 1 \/ s[1] >= n THEN Len(s) + 1000
   ELSE LET b == s[1]
            l1 == StratLen(n - b, Tail(s))
        IN IF l1 > Len(s) - 1 THEN Len(s) + 1000
           ELSE LET l2 == StratLen(b, SubSeq(s, 2 + l1, Len(s)))
                IN 1 + l1 + l2
StratOK(n, s) == StratLen(n, s) = Len(s)
\* <<0>> in a case stands for the stored strategy (its validity: see pr.params)
StratArgOK(n, s) == IF s = <<0>> THEN n = StoredLen ELSE StratOK(n, s)

(***************************************************************************)
(* Level-two theta structures.  A structure is given by its null point O;  *)
(* all coordinates of O and of its dual are non-zero.  Points are quadruples *)
(* up to a common factor.                                                  *)
(***************************************************************************)
T4(v) == [k \in 1..4 |-> G(v[k])]
F2Sum(v) == F2Add(F2Add(v[1], v[2]), F2Add(v[3], v[4]))
\* the sum over all j of (-1)^(i.j) v_j, indices written with two bits
Bit(k, b) == IF b = 0 THEN (k - 1) % 2 ELSE (k - 1) \div 2
Had(v) == [i \in 1..4 |-> F2Sum([j \in 1..4 |-> IF (Bit(i, 0) * Bit(j, 0) + Bit(i, 1) * Bit(j, 1)) % 2 = 1 THEN F2Neg(v[j]) ELSE v[j]])]
Sq4(v) == [k \in 1..4 |-> F2Sqr(v[k])]
Div4(v, w) == [k \in 1..4 |-> F2Div(v[k], w[k])]
ThetaDouble(O, P) == Div4(Had(Div4(Sq4(Had(Sq4(P))), Had(Sq4(O)))), O)
Null4(v) == \A k \in 1..4 : v[k] = F2Zero
SameProj(v, w) == ~Null4(v) /\ ~Null4(w) /\ \A i, j \in 1..4 : F2Mul(v[i], w[j]) = F2Mul(v[j], w[i])
NullOK(O) == \A k \in 1..4 : O[k] # F2Zero /\ Had(Sq4(O))[k] # F2Zero
\* the product of two structures of dimension one, and its points
Tensor(x, y) == <<F2Mul(x[1], y[1]), F2Mul(x[2], y[1]), F2Mul(x[1], y[2]), F2Mul(x[2], y[2])>>
\* the Montgomery curve of the null point (a : b), and x = X/Z of the point (U : V)
NullCurve(o) == LET s == F2Sqr(F2Add(F2Sqr(o[1]), F2Sqr(o[2])))
                    d == F2Sqr(F2Sub(F2Sqr(o[1]), F2Sqr(o[2])))
                    q == F2Sub(F2Sqr(F2Sqr(o[1])), F2Sqr(F2Sqr(o[2])))
                IN F2Neg(F2Div(F2Add(s, d), q))
XZ(o, u) == <<F2Add(F2Mul(o[1], u[2]), F2Mul(o[2], u[1])), F2Sub(F2Mul(o[1], u[2]), F2Mul(o[2], u[1]))>>
\* (X : Z) doubled on the curve A
XDouble(A, p) == LET X2 == F2Sqr(p[1])
                     Z2 == F2Sqr(p[2])
                     m == F2Mul(p[1], p[2])
                 IN <<F2Sqr(F2Sub(X2, Z2)), F2Scale(BNat(4), F2Mul(m, F2Add(F2Add(X2, Z2), F2Mul(A, m))))>>
SameX(p, q) == p # <<F2Zero, F2Zero>> /\ q # <<F2Zero, F2Zero>> /\ F2Mul(p[1], q[2]) = F2Mul(p[2], q[1])
\* v is a product of points of the two structures whose x are the given ones
ComponentsAre(v, o1, x1, o2, x2) ==
   /\ F2Mul(v[1], v[4]) = F2Mul(v[2], v[3])
   /\ LET r == IF <<v[1], v[2]>> # <<F2Zero, F2Zero>> THEN <<v[1], v[2]>> ELSE <<v[3], v[4]>>
          c == IF <<v[1], v[3]>> # <<F2Zero, F2Zero>> THEN <<v[1], v[3]>> ELSE <<v[2], v[4]>>
      IN SameX(XZ(o1, r), x1) /\ SameX(XZ(o2, c), x2)
NDouble(O, P, n) == FoldLeft(LAMBDA acc, k : ThetaDouble(O, acc), P, [k \in 1..n |-> k])

ThetaEventOps == {"th.chain", "th.dbl", "th.prod"}
ThetaEventOK(e) ==
  LET a == e.a
      r == e.r
  IN CASE e.op = "th.dbl" ->
       \* <<O, P, number of doublings, the same, the pairs O and P are products of>>
       LET O == T4(a[1])
           P == T4(a[2])
           D == ThetaDouble(O, P)
       IN /\ NullOK(O)
          /\ \A k \in 1..2 :                      \* the structure made from coordinates, from a point
                LET q == r[k] IN /\ T4(q[1]) = O
                                 /\ SameProj(T4(q[2]), D)          \* double_point
                                 /\ SameProj(T4(q[3]), D)          \* set_double_self
                                 /\ SameProj(T4(q[4]), NDouble(O, P, a[3]))
                                 /\ SameProj(T4(q[5]), O)          \* the double of the null point
          /\ T4(r[3]) = P /\ T4(r[4]) = P
          /\ T4(r[5]) = Had(P) /\ T4(r[6]) = Had(Sq4(P))
          /\ a[4] # <<>> =>
               LET o1 == <<G(a[4][1][1]), G(a[4][1][2])>>
                   u1 == <<G(a[4][2][1]), G(a[4][2][2])>>
                   o2 == <<G(a[4][3][1]), G(a[4][3][2])>>
                   u2 == <<G(a[4][4][1]), G(a[4][4][2])>>
               IN /\ SameProj(O, Tensor(o1, o2)) /\ SameProj(P, Tensor(u1, u2))
                  /\ \A k \in 1..2 : ComponentsAre(T4(r[k][2]), o1, XDouble(NullCurve(o1), XZ(o1, u1)),
                                                               o2, XDouble(NullCurve(o2), XZ(o2, u2)))
       [] e.op = "th.prod" ->
       \* <<A1, A2, (P1, P2), (Q1, Q2), n>>: the product of two curves, componentwise
       LET A1 == G(a[1])
           A2 == G(a[2])
           P1 == Pt(a[3][1])
           P2 == Pt(a[3][2])
       IN /\ r[1] = <<a[1], a[2]>> /\ r[2] = a[3]
          /\ r[3] = <<PtH(EcAdd(A1, P1, Pt(a[4][1]))), PtH(EcAdd(A2, P2, Pt(a[4][2])))>>
          /\ r[4] = <<PtH(EcDbl(A1, P1)), PtH(EcDbl(A2, P2))>>
          /\ r[5] = <<PtH(EcDblN(A1, P1, a[5])), PtH(EcDblN(A2, P2, a[5]))>>
       [] e.op = "th.chain" ->
       \* a[10] = <<E, expected points, X, expected points>>, <<>> when only the
       \* independence of the strategy is judged
       /\ Len(r) = 1 + Len(a[7])
       /\ \A k \in 1..Len(a[7]) : StratArgOK(a[6], a[7][k])
       /\ \A k \in 2..Len(r) : SameProduct(r[1], r[k])
       /\ a[10] # <<>> => ProductOK(r[Len(r)], G(a[10][1]), [k \in 1..Len(a[10][2]) |-> Pt(a[10][2][k])],
                                    G(a[10][3]), [k \in 1..Len(a[10][4]) |-> Pt(a[10][4][k])])
=============================================================================
