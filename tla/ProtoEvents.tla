------------------------------ MODULE ProtoEvents -----------------------------
(***************************************************************************)
(* The FESTA trapdoor function.  The state of a history is the key pair    *)
(* with the canonical bases that belong to it:                             *)
(*   key = <<(Pb, Qb), (Pd1, Qd1), pk, sk, basis of EA[d2], of EA'[d2]>>,  *)
(*   pk = <<EA, R, S>>, sk = <<EA', (P1, Q1), (P2, Q2), a11, a22>>.        *)
(***************************************************************************)
EXTENDS ThetaEvents

StartA == F2N(6)
MaskOrder == BPow(BTwo, BB)
MaskF(z) == << <<2, BB>> >>
Sq(x) == BMul(x, x)
DegA1(z) == Sq(FProd(DA1F))
DegA2(z) == Sq(FProd(DA2F))
TwoPts(v) == <<Pt(v[1]), Pt(v[2])>>

\* a point of order FProd(f) and another one that completes a basis, searched in order
LiftX(A, x) == LET t == CurveRhs(A, x) IN <<x, F2Root(t)>>
Lifts(A, x) == F2Legendre(CurveRhs(A, x)) >= 0
RECURSIVE TorPoint(_, _, _)
TorPoint(A, f, i) ==
   LET x == <<FRed(BNat(i)), BOne>>
       P == EcMul(A, LiftX(A, x), BDiv(PPlus1, FProd(f)))
   IN IF Lifts(A, x) THEN (IF PointOrderIs(A, P, f) THEN <<P, i>> ELSE TorPoint(A, f, i + 1)) ELSE TorPoint(A, f, i + 1)
RECURSIVE TorPoint2(_, _, _, _)
TorPoint2(A, f, P, i) == LET q == TorPoint(A, f, i)
                         IN IF IsBasis(A, P, q[1], f) THEN q[1] ELSE TorPoint2(A, f, P, q[2] + 1)
\* generators of all cyclic subgroups of order l^e, and of order FProd(f)
PowerKernels(A, l, e) ==
   LET f == << <<l, e>> >>
       p == TorPoint(A, f, 1)
       Q == TorPoint2(A, f, p[1], p[2] + 1)
       n == BToInt(FProd(f))
   IN {EcAdd(A, p[1], EcMul(A, Q, BNat(k))) : k \in 0..(n - 1)}
      \cup {EcAdd(A, EcMul(A, p[1], BNat(l * k)), Q) : k \in 0..(n \div l - 1)}
RECURSIVE CyclicKernels(_, _)
CyclicKernels(A, f) ==
   IF Len(f) = 1 THEN PowerKernels(A, f[1][1], f[1][2])
   ELSE {EcAdd(A, K, K2) : K \in PowerKernels(A, f[1][1], f[1][2]), K2 \in CyclicKernels(A, Tail(f))}
\* curves and images after two cyclic isogenies of degree FProd(f)
TwoSteps(A, f, pts) ==
   UNION { LET s == IsoChain(A, K, f, pts)
           IN { LET t == IsoChain(s[1], K2, f, s[3]) IN <<t[1], t[3]>> : K2 \in CyclicKernels(s[1], f) }
           : K \in CyclicKernels(A, f) }
SmallWalks(z) == BBits(PP) < 60

SomePoints(A) == {LiftX(A, <<BNat(k), BOne>>) : k \in {j \in 2..8 : Lifts(A, <<FRed(BNat(j)), BOne>>)}}
Supersingular(A) == CurveOK(A) /\ \A P \in SomePoints(A) : KilledByPPlus1(A, P)
BasisOn(A, b, f) == OnCurve(A, b[1]) /\ OnCurve(A, b[2]) /\ b[1] # Inf /\ b[2] # Inf
                    /\ PointOrderIs(A, b[1], f) /\ PointOrderIs(A, b[2], f) /\ IsBasis(A, b[1], b[2], f)
JointPts(xs, ys) == xs = ys \/ (xs[1] = EcNeg(ys[1]) /\ xs[2] = EcNeg(ys[2]))

\* the parts of a point of order 2^BB d1
MaskPart(A, P) == LET d == FProd(D1F) IN EcMul(A, P, BMul(d, BInvMod(d, MaskOrder)))

\* h = g^k with k a square modulo every prime of f
SquareLogs(g, h, f) ==
   \A j \in 1..Len(f) :
      LET e == BDiv(FProd(f), BNat(f[j][1]))
          gj == F2Pow(g, e)
          hj == F2Pow(h, e)
      IN \E k \in 1..((f[j][1] - 1) \div 2) : F2Pow(gj, BNat((k * k) % f[j][1])) = hj
\* xs = [c] ys jointly, for a basis ys of the n-torsion
CommonMultiple(A, xs, ys, n) ==
   /\ WeilSpec(A, xs[1], ys[1], n) = F2One
   /\ WeilSpec(A, xs[2], ys[2], n) = F2One
   /\ WeilSpec(A, EcAdd(A, xs[1], xs[2]), EcAdd(A, ys[1], ys[2]), n) = F2One

KeyOK(r) ==
  LET lb == TwoPts(r[1])
      d1 == TwoPts(r[2])
      EA == G(r[3][1])
      RS == <<Pt(r[3][2]), Pt(r[3][3])>>
      EAp == G(r[4][1])
      b1 == TwoPts(r[4][2])
      b2 == TwoPts(r[4][3])
      a11 == BHex(r[4][4])
      a22 == BHex(r[4][5])
      ba == TwoPts(r[5])
      F1 == << <<2, BB>> >> \o D1F
      n1 == BMul(MaskOrder, FProd(D1F))
      sum == <<EcAdd(StartA, lb[1], d1[1]), EcAdd(StartA, lb[2], d1[2])>>
  IN /\ Supersingular(EA) /\ Supersingular(EAp)
     /\ BasisOn(StartA, lb, MaskF(0)) /\ BasisOn(StartA, d1, D1F)
     /\ BasisOn(EA, RS, MaskF(0)) /\ BasisOn(EA, ba, D2F)
     /\ BasisOn(EAp, b1, F1) /\ BasisOn(EAp, b2, D2F)
     /\ BOdd(a11) /\ BOdd(a22) /\ BLt(a11, MaskOrder) /\ BLt(a22, MaskOrder)
     /\ WeilSpec(EAp, b1[1], b1[2], n1) = F2Pow(WeilSpec(StartA, sum[1], sum[2], n1), DegA1(0))
     /\ WeilSpec(EA, RS[1], RS[2], MaskOrder)
        = F2Pow(WeilSpec(StartA, lb[1], lb[2], MaskOrder), BMod(BMul(BMul(DegA1(0), DegA2(0)), BMul(a11, a22)), MaskOrder))
     \* the second isogeny maps b2 to a common multiple [c] of ba
     /\ SquareLogs(WeilSpec(EA, ba[1], ba[2], FProd(D2F)), F2Pow(WeilSpec(EAp, b2[1], b2[2], FProd(D2F)), BMod(DegA2(0), FProd(D2F))), D2F)
     \* for small degrees the isogenies themselves are found
     /\ SmallWalks(0) =>
          /\ \E w \in TwoSteps(StartA, DA1F, sum) : w[1] = EAp /\ JointPts(w[2], b1)
          /\ \E w \in TwoSteps(EAp, DA2F, <<MaskPart(EAp, b1[1]), MaskPart(EAp, b1[2]), b2[1], b2[2]>>) :
               /\ w[1] = EA
               /\ JointPts(<<EcMul(EA, w[2][1], a11), EcMul(EA, w[2][2], a22)>>, RS)
               /\ CommonMultiple(EA, <<w[2][3], w[2][4]>>, ba, FProd(D2F))

\* the image of the pair RS under the isogeny with kernel P + [s]Q, times the masks
BranchOK(A, tor, s, f, RS, b11, b22, E, im) ==
   LET K == EcAdd(A, tor[1], EcMul(A, tor[2], s))
       c == IsoChain(A, K, f, RS)
   IN /\ E = c[1]
      /\ JointPts(im, <<EcMul(E, c[3][1], b11), EcMul(E, c[3][2], b22)>>)
EvalOK(key, m, r) ==
   LET b11 == BHex(m[3])
       b22 == BHex(m[4])
   IN /\ BranchOK(StartA, TwoPts(key[2]), BHex(m[1]), D1F, TwoPts(key[1]), b11, b22, G(r[1]), <<Pt(r[2]), Pt(r[3])>>)
      /\ BranchOK(G(key[3][1]), TwoPts(key[5]), BHex(m[2]), D2F, <<Pt(key[3][2]), Pt(key[3][3])>>, b11, b22, G(r[4]), <<Pt(r[5]), Pt(r[6])>>)

\* messages that can be evaluated; those that inversion returns have determinant one
InputOK(m) == /\ BLt(BHex(m[1]), FProd(D1F)) /\ BLt(BHex(m[2]), FProd(D2F))
              /\ BLt(BHex(m[3]), MaskOrder) /\ BLt(BHex(m[4]), MaskOrder) /\ BOdd(BHex(m[3])) /\ BOdd(BHex(m[4]))
MessageOK(m) == InputOK(m) /\ BMulMod(BHex(m[3]), BHex(m[4]), MaskOrder) = BOne
\* with the mask below half
Canonical(m) == IF BLt(BHex(m[3]), BPow(BTwo, BB - 1)) THEN m
                ELSE <<m[1], m[2], BToHex(BSub(MaskOrder, BHex(m[3]))), BToHex(BSub(MaskOrder, BHex(m[4])))>>

\* serialisation: encodings in sequence, integers in 82 bytes

HexLE(x, n) == LET hx == BToHex(x)
                   even == IF Len(hx) % 2 = 0 THEN hx ELSE "0" \o hx
                   m == Len(even) \div 2
               IN FoldLeft(LAMBDA acc, k : acc \o (IF k <= m THEN SubSeq(even, 2 * (m - k) + 1, 2 * (m - k) + 2) ELSE "00"), "", [k \in 1..n |-> k])
FpBytes == IF BBits(PP) < 64 THEN 8 ELSE (BBits(PP) + 7) \div 8
EncF2(v) == HexLE(BHex(v[1]), FpBytes) \o HexLE(BHex(v[2]), FpBytes)
EncPt(v) == EncF2(v[1]) \o EncF2(v[2])
IntBytes == 82

DistinctPrimes(f) == \A k \in 1..Len(f) : /\ f[k][2] >= 1 /\ f[k][1] % 2 = 1 /\ f[k][1] > 2
                        /\ \A d \in {x \in 2..220 : x * x <= f[k][1]} : f[k][1] % d # 0
                        /\ \A j \in 1..Len(f) : j # k => f[j][1] # f[k][1]
Coprime(f, g) == \A k \in 1..Len(f) : \A j \in 1..Len(g) : f[k][1] # g[j][1]
IsSquareList(f, g, h) == \* f lists the squares of the primes of g and h
   {<<f[k][1], f[k][2]>> : k \in 1..Len(f)} = {<<g[k][1], 2 * g[k][2]>> : k \in 1..Len(g)} \cup {<<h[k][1], 2 * h[k][2]>> : k \in 1..Len(h)}
PrimeTo(m, f) == \A k \in 1..Len(f) : ~BIsZero(BMod(m, BNat(f[k][1])))
ParamsOK(r) ==
  LET p == BHex(r[1])
      n == BHex(r[2])
      D == [k \in 1..5 |-> BHex(r[3][k])]
      f == r[4]
      m1 == BHex(r[5][1])
      m2 == BHex(r[5][2])
      L == r[6]
      T == r[7]
  IN /\ p = PP /\ n = BAdd(p, BOne) /\ BToInt(BMod(p, BNat(4))) = 3
     /\ BBits(PP) > 200 => BBits(p) = 1293
     /\ \A k \in 1..5 : DistinctPrimes(f[k])
     /\ D[1] = FProd(f[1]) /\ D[2] = FProd(f[2]) /\ D[3] = FProd(f[3])
     /\ D[4] = Sq(FProd(f[4])) /\ D[5] = Sq(FProd(f[5]))
     /\ D[3] = BMul(D[4], D[5]) /\ IsSquareList(f[3], f[4], f[5])
     /\ \A i \in {1, 2, 4, 5} : \A j \in {1, 2, 4, 5} : i # j => Coprime(f[i], f[j])
     /\ BIsZero(BMod(n, BMul(BMul(BPow(BTwo, L), BMul(D[1], D[2])), BMul(FProd(f[4]), FProd(f[5])))))
     /\ BAdd(BMul(Sq(m1), BMul(D[1], D[4])), BMul(Sq(m2), BMul(D[2], D[5]))) = BPow(BTwo, T)
     /\ BOdd(m1) /\ BOdd(m2)
     \* the multiplied isogenies act faithfully on the torsion that carries the scalars
     /\ PrimeTo(m1, f[1]) /\ PrimeTo(m2, f[2])
     /\ T = L - 2
     /\ L = BB
     /\ StratOK(T, r[8])
     /\ r[10] = (BBits(p) + 7) \div 8 /\ r[11] = 2 * r[10]

ProtoEventOps == {"pr.keygen", "pr.eval", "pr.roundtrip", "pr.params", "pr.diag", "pr.sk", "pr.out"}
ProtoNext(key, e) == IF e.op = "pr.keygen" THEN e.r ELSE key
ProtoEventOK(key, e) ==
  LET a == e.a
      r == e.r
  IN CASE e.op = "pr.keygen" -> KeyOK(r) /\ (a[1] # <<>> => r[4][4] = a[1][1] /\ r[4][5] = a[1][2])
       [] e.op = "pr.eval" -> InputOK(a[1]) /\ EvalOK(key, a[1], r)
       [] e.op = "pr.roundtrip" -> /\ Len(r) = Len(a[1])
                                   /\ \A k \in 1..Len(r) : MessageOK(a[1][k]) /\ r[k] = Canonical(a[1][k])
       [] e.op = "pr.params" -> ParamsOK(r)
       \* a[5] is the logarithm of R to the base P; inv = 1/(d1^2 d2 m1)
       [] e.op = "pr.diag" ->
            LET inv == BInvMod(BMod(BMul(BMul(Sq(FProd(D1F)), FProd(D2F)), M1V), MaskOrder), MaskOrder)
                al == BMulMod(inv, BHex(a[5]), MaskOrder)
                x == IF BLt(BPow(BTwo, BB - 1), al) THEN BSub(MaskOrder, al) ELSE al
            IN r = <<BToHex(x), BToHex(BInvMod(x, MaskOrder))>>
       [] e.op = "pr.sk" ->
            LET b == EncF2(a[1]) \o EncPt(a[2][1]) \o EncPt(a[2][2]) \o EncPt(a[3][1]) \o EncPt(a[3][2])
                     \o HexLE(BHex(a[4]), IntBytes) \o HexLE(BHex(a[5]), IntBytes)
            IN r = <<18 * FpBytes + 2 * IntBytes, b, a, b>>
       [] e.op = "pr.out" ->
            LET b == EncF2(a[1]) \o EncPt(a[2]) \o EncPt(a[3]) \o EncF2(a[4]) \o EncPt(a[5]) \o EncPt(a[6])
            IN r = <<20 * FpBytes, b, a, b>>
=============================================================================
