------------------------------- MODULE EcSelf -------------------------------
(* Compares the Java overrides of the curve layer with their definitions.  *)
EXTENDS EcPool, TLC
Full == BBits(PP) > 200
A0 == E0A
A1 == IF Full THEN RandCurve(5) ELSE WalkCurve(3, 2)
Scalars(z) == <<BZero, BOne, BTwo, BNat(3), BNat(4), BNat(6), BNat(7), BNat(8), PPlus1, PP, BNat(12345)>> \o [k \in 1..4 |-> RBelow(11, k, PPlus1)]
Pts(A) == IF BBits(PP) < 6 THEN AllPoints(A) ELSE SpecialPoints(A, 17)
\* the points a pairing is taken at
Check(A) ==
  LET pts == Pts(A)
      sc == Scalars(0)
  IN /\ \A k \in 1..Len(pts) : \A j \in 1..Len(sc) : (Full => (j + k) % 8 = 0) =>
          Assert(EcMul(A, pts[k], sc[j]) = EcMulPlain(A, pts[k], sc[j]), <<"EcMul", k, j>>)
     /\ \A k \in 1..Len(pts) : \A j \in 1..Len(pts) : (pts[j] # Inf /\ (Full => (j + 3 * k) % 40 = 0)) =>
          \A i \in 3..(IF Full THEN 6 ELSE Len(sc)) :
          Assert(Miller(A, pts[k], pts[j], sc[i]) = MillerPlain(A, pts[k], pts[j], sc[i]), <<"Miller", k, j, i>>)
     /\ Full => LET n == sc[Len(sc)] IN Miller(A, pts[3], pts[8], n) = MillerPlain(A, pts[3], pts[8], n)
     /\ \A j \in 1..Len(sc) : Assert(F2Pow(RF2(3, j), sc[j]) = F2PowPlain(RF2(3, j), sc[j]), <<"F2Pow", j>>)
CheckIso(A, l, s) ==
  LET f == <<<<l, 1>>>>
      K == TorsionPoint(A, f, s, 1)
      xs == KernelX(A, K, l)
      R == RandPoint(A, s + 1, 1)
  IN /\ Assert(xs = KernelXPlain(A, K, l), "KernelX")
     /\ Assert(VeluCodomain(A, xs) = VeluCodomainPlain(A, xs), "VeluCodomain")
     /\ Assert(VeluTerms(R[1], xs) = VeluTermsPlain(R[1], xs), "VeluTerms")
     /\ Assert(OnCurve(VeluCodomain(A, xs), VeluImage(R, xs)), "VeluImage")
VARIABLE x
Init == x = 0 /\ Check(A0) /\ Check(A1)
        /\ (BBits(PP) > 11 => /\ \A k \in 1..(IF Full THEN 4 ELSE Len(D1F)) : CheckIso(A0, D1F[k][1], 100 + k)
                              /\ CheckIso(WalkCurve(3, 5), DA2F[1][1], 200))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
