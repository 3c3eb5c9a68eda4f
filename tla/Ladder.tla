-------------------------------- MODULE Ladder --------------------------------
(***************************************************************************)
(* Scalar multiplication as the code does it -- Montgomery ladder on the    *)
(* x-line, recovery of y, corrective cases -- as a transition system over   *)
(* a small field, checked against the group law for every curve, every      *)
(* point and every scalar up to MaxBits bits.                               *)
(***************************************************************************)
EXTENDS EcPool, TLC
CONSTANT MaxBits
Pmax == BToInt(PP) - 1
Elements == {<<BNat(i), BNat(j)>> : i \in 0..Pmax, j \in 0..Pmax}
Curves == {A \in Elements : CurveOK(A)}
VARIABLES A, P, k, len, X0, Z0, X1, Z1
vars == <<A, P, k, len, X0, Z0, X1, Z1>>

Px == IF P = Inf THEN F2Zero ELSE P[1]
Py == IF P = Inf THEN F2One ELSE P[2]
Pz == IF P = Inf THEN F2Zero ELSE F2One
A24 == F2Div(F2Add(A, F2N(2)), F2N(4))

\* the points of a curve are drawn with the curve
Init == /\ A \in Curves
        /\ P \in {AllPoints(A)[i] : i \in 1..Len(AllPoints(A))}
        /\ k = 0 /\ len = 0
        /\ X0 = F2One /\ Z0 = F2Zero
        /\ X1 = Px /\ Z1 = Pz

DblX(X, Z) == LET v1 == F2Sqr(F2Add(X, Z))
                  v2 == F2Sqr(F2Sub(X, Z))
                  d == F2Sub(v1, v2)
              IN << F2Mul(v1, v2), F2Mul(d, F2Add(F2Mul(A24, d), v2)) >>
AddX(X, Z, U, V) == LET v1 == F2Mul(F2Sub(X, Z), F2Add(U, V))
                        v2 == F2Mul(F2Add(X, Z), F2Sub(U, V))
                    IN << F2Mul(Pz, F2Sqr(F2Add(v1, v2))), F2Mul(Px, F2Sqr(F2Sub(v1, v2))) >>
\* one more bit of the scalar, most significant first
Bit(b) == /\ len < MaxBits
          /\ len' = len + 1
          /\ k' = 2 * k + b
          /\ LET s == AddX(X0, Z0, X1, Z1)
                 d == IF b = 0 THEN DblX(X0, Z0) ELSE DblX(X1, Z1)
             IN IF b = 0 THEN /\ X0' = d[1] /\ Z0' = d[2] /\ X1' = s[1] /\ Z1' = s[2]
                         ELSE /\ X0' = s[1] /\ Z0' = s[2] /\ X1' = d[1] /\ Z1' = d[2]
          /\ UNCHANGED <<A, P>>
Next == Bit(0) \/ Bit(1)
Spec == Init /\ [][Next]_vars

Mul(n) == EcMulPlain(A, P, BNat(n))
IsX(X, Z, Q) == IF Q = Inf THEN Z = F2Zero /\ X # F2Zero ELSE Z # F2Zero /\ F2Mul(Q[1], Z) = X
\* the two running values are the abscissae of k*P and (k+1)*P
LadderInv == (P # Inf /\ Px # F2Zero) => IsX(X0, Z0, Mul(k)) /\ IsX(X1, Z1, Mul(k + 1))

\* y by Okeya and Sakurai
Recover ==
  LET xpz0 == F2Mul(Px, Z0)
      x0zp == F2Mul(X0, Pz)
      zz == F2Mul(Pz, Z0)
      zzA == F2Mul(F2Add(A, A), zz)
      xxzz == F2Add(F2Mul(Px, X0), zz)
      u == F2Sub(F2Mul(xxzz, F2Add(F2Add(xpz0, x0zp), zzA)), F2Mul(zzA, zz))
      v == F2Mul(F2Mul(F2Add(Py, Py), zz), Z1)
      z == F2Mul(Z0, v)
      x == F2Mul(X0, v)
      y == F2Sub(F2Mul(u, Z1), F2Mul(F2Sqr(F2Sub(xpz0, x0zp)), X1))
  IN IF z = F2Zero THEN Inf ELSE << F2Div(x, z), F2Div(y, z) >>
Result ==
  LET order2 == P # Inf /\ Py = F2Zero
      gen == P # Inf /\ ~order2
  IN IF P = Inf THEN Inf
     ELSE IF order2 THEN (IF k % 2 = 1 THEN P ELSE Inf)
     ELSE IF Z0 = F2Zero THEN Inf
     ELSE IF Z1 = F2Zero THEN EcNeg(P)
     ELSE IF F2Mul(X1, Pz) = F2Mul(Px, Z1) THEN EcNeg(EcDbl(A, P))
     ELSE Recover
Correct == Result = Mul(k)
=============================================================================
