------------------------------- MODULE GenIso -------------------------------
(* Cases for odd isogeny chains (P18, P21) and curve isomorphisms (P22).   *)
EXTENDS EcPool
What == EnvOr("GEN", "chain")
N == BToInt(BHex(EnvOr("SIZE_HEX", "20")))
Big1 == BBits(PP) > 200
Tiny == BBits(PP) < 11
Rev(f) == [k \in 1..Len(f) |-> f[Len(f) + 1 - k]]
OddPart(p1) == D1F \o D2F \o DA1F \o DA2F

\* ------------------------------------------------------------ isomorphisms
\* supersingular curves with extra automorphisms: A = 0 and A^2 = 3, A^2 = 9/2
SpecialA(z) == <<F2Zero>>
             \o (IF FIsSquare(BNat(3)) THEN <<<<FRoot(BNat(3)), BZero>>, <<FNeg(FRoot(BNat(3))), BZero>>>> ELSE <<<<BZero, FRoot(FNeg(BNat(3)))>>>>)
             \o <<F2Root(F2Half(F2N(9))), F2Neg(F2Root(F2Half(F2N(9))))>>
IsoPts(A, s) == LET P == RandPoint(A, s, 1)
                    Q == RandPoint(A, s + 2, 1)
                IN SpecialPoints(A, s + 4) \o <<P, Q, EcAdd(A, P, Q), EcNeg(P), EcDbl(A, Q), Inf>>
IsoCase(A, A2, pts, s, i) == Ev("ec.isom", <<HH(A), HH(A2), PHs(pts), HH(ZChoice(s, i))>>)
SetToSeq2(S) == FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, S)
IsoFrom(A, s) == LET pts == Force(IsoPts(A, s))
                     cs == SetToSeq2({c.A : c \in IsoCandidates(A)})
                 IN [k \in 1..Len(cs) |-> IsoCase(A, cs[k], pts, s + 8, k)]
IsomGroups(z) ==
  LET walk == [k \in 1..N |-> WalkCurve(1200 + k, k)]
      rnd == [k \in 1..N |-> RandCurve(1300 + k)]
      axis == [k \in 1..6 |-> IF k < 4 THEN F2N(k + 4) ELSE <<BZero, FRed(BNat(k))>>]
      all == SelectSeq(<<E0A, F2Neg(E0A)>> \o SpecialA(0) \o walk \o rnd \o axis, CurveOK)
      everyA == SelectSeq(AllX(0), CurveOK)
  IN Concat([k \in 1..Len(all) |-> Chunks(IsoFrom(all[k], 1400 + 20 * k), 2)])
     \o (IF ~Tiny \/ BToInt(PP) > 31 THEN <<>> ELSE Concat([k \in 1..Len(everyA) |-> Chunks(IsoFrom(everyA[k], 3000 + 20 * k), 8)]))

\* ------------------------------------------------------------ chains
\* points whose images are asked for: of every kind, on both sides of the kernel
ChainPts(A, K, f, s, n) ==
  LET D == FProd(f)
      t2 == TwoTorsion(A)
      t4 == FourTorsion(A)
      R == RandPoint(A, s, 1)
      Q == RandPoint(A, s + 2, 1)
      M == EcMul(A, R, D)
      ks == <<K, EcNeg(K), EcDbl(A, K)>> \o [k \in 1..Len(f) |-> EcMul(A, K, BDiv(D, BNat(f[k][1])))] \o <<EcMul(A, K, RBelow(s + 3, 1, D))>>
  IN Sub(<<Inf>> \o t2 \o t4 \o ks \o <<R, Q, EcAdd(A, R, Q), EcAdd(A, R, K), EcSub(A, R, K), M, EcMul(A, Q, BDiv(PPlus1, D)), EcAdd(A, R, t2[1])>>
         \o [k \in 1..Len(t2) |-> EcAdd(A, K, t2[k])] \o [k \in 1..Len(t4) |-> EcAdd(A, K, t4[k])], s + 5, n)
ChainCase(A, K, f, pts, s, i) == Ev("ec.chain", <<HH(A), PH(K), f, PHs(pts), HH(ZChoice(s, 2 * i)), HH(ZChoice(s, 2 * i + 1))>>)
ChainRand(A, f, s, n) == LET K == TorsionPoint(A, f, s, 1) IN ChainCase(A, K, f, ChainPts(A, K, f, s + 50, n), s + 70, 1)
BasisCase(A, f, tor, s) ==
  LET K == TorsionPoint(A, f, s, 1)
      B == TorBasis(A, tor, s + 10)
  IN Ev("ec.chainbasis", <<HH(A), PH(K), f, PH(B[1]), PH(B[2]), H(FProd(tor)), H(FProd(f))>>)
\* every subgroup of order l, every generator when l is small
AllKernels(A, l, s) ==
  LET f == <<<<l, 1>>>>
      B == TorBasis(A, f, s)
      Ks == Force(<<B[2]>> \o [k \in 1..l |-> EcAdd(A, B[1], EcMul(A, B[2], BNat(k - 1)))])
  IN Concat([k \in 1..Len(Ks) |-> [u \in 1..(IF l < 6 THEN l - 1 ELSE 1) |->
       LET K == EcMul(A, Ks[k], BNat(IF l < 6 THEN u ELSE 1 + RInt(s + 5, k, l - 1)))
       IN ChainCase(A, K, f, ChainPts(A, K, f, s + 100 + 7 * k, 8), s + 6, k * 10 + u)]])
\* kernels of a composite order: P + [m]Q for multiples m that are special
Orders(z) ==
  IF Big1 THEN << <<<<3,1>>>>, <<<<3,2>>>>, <<<<3,6>>>>, <<<<5,4>>>>, <<<<7,3>>>>, <<<<5,1>>,<<7,1>>>>, <<<<7,1>>,<<5,1>>>>, <<<<3,6>>,<<5,4>>>>, <<<<5,4>>,<<3,6>>>>,
                  <<<<19,2>>,<<3,3>>,<<29,2>>>>, <<<<11,2>>,<<13,2>>,<<17,2>>>>, <<<<17,1>>,<<13,2>>,<<11,1>>>>, <<<<71,2>>>>, <<<<83,1>>>>, <<<<139,2>>>>, DA1F, <<<<59,1>>>>, <<<<631,1>>,<<127,2>>>>, <<<<71,3>>>> >>
  ELSE LET all == OddPart(0)
           ones == [k \in 1..Len(all) |-> <<all[k]>>]
           one1 == [k \in 1..Len(all) |-> <<<<all[k][1], 1>>>>]
           pairs == Concat([k \in 1..Len(all) |-> [j \in 1..Len(all) |-> IF all[k][1] = all[j][1] THEN <<all[k]>> ELSE <<all[k], all[j]>>]])
       IN ones \o one1 \o pairs \o <<D1F, D2F, Rev(D1F), Rev(D2F), DA1F, DA2F, DA1F \o D1F, DA2F \o D2F, D1F \o D2F, all, Rev(all)>>
ChainGroups(z) ==
  LET os == Orders(0)
      cs == Force([k \in 1..6 |-> IF k = 1 THEN E0A ELSE IF k = 2 THEN F2Neg(E0A) ELSE IF k = 3 THEN F2Zero ELSE WalkCurve(1500 + k, k + 1)])
      tors == << <<<<2, BB>>>>, <<<<2, 2>>>>, <<<<2, 7>>>> >>
      rep == IF Big1 THEN 1 ELSE N
      np == IF Big1 THEN 10 ELSE 14
      rnd == Concat([k \in 1..Len(os) |-> [j \in 1..rep |-> ChainRand(cs[1 + ((k + j) % 6)], os[k], 1600 + 100 * k + 10000 * j, np)]])
      more == IF Big1 THEN [j \in 1..N |-> ChainRand(cs[1 + (j % 6)], os[1 + RInt(1510, j, Len(os))], 50000 + 100 * j, 8)] ELSE <<>>
      bas == [k \in 1..Len(os) |-> BasisCase(cs[1 + (k % 6)], os[k], tors[1 + (k % (IF Big1 THEN 2 ELSE 3))], 1700 + 20 * k)]
      whole == IF Big1 THEN <<>> ELSE Concat([k \in 1..3 |-> Concat([j \in 1..Len(OddPart(0)) |-> AllKernels(cs[2 * k - 1], OddPart(0)[j][1], 1800 + 100 * k + 1000 * j)])])
  IN Chunks(rnd \o more, IF Big1 THEN 1 ELSE 8) \o Chunks(bas, IF Big1 THEN 1 ELSE 8) \o Chunks(whole, 12)
\* the degrees the system uses, one chain each
LargeGroups(z) ==
  LET one(A, f, s) == LET K == TorsionPoint(A, f, s, 1) IN ChainCase(A, K, f, ChainPts(A, K, f, s + 20, 3), s + 40, 1)
  IN << <<one(E0A, DA2F, 1900)>>, <<one(WalkCurve(1901, 5), D1F, 1902)>>, <<one(WalkCurve(1903, 5), D2F, 1904)>>, <<one(F2Zero, Rev(D1F), 1906)>> >>

\* every prime power, and products of prime powers in both orders
PowerFs(z) == IF Big1 THEN << <<<<3,1>>>>, <<<<3,2>>>>, <<<<3,3>>>>, <<<<3,4>>>>, <<<<3,5>>>>, <<<<3,6>>>>, <<<<5,2>>>>, <<<<5,3>>>>, <<<<5,4>>>>, <<<<7,2>>>>, <<<<7,3>>>>,
                              <<<<5,4>>,<<3,5>>,<<7,3>>>>, <<<<7,2>>,<<3,6>>,<<5,3>>>> >>
              ELSE LET one(l, m) == [e \in 1..m |-> <<<<l, e>>>>]
                   IN one(3, 15) \o one(5, 8) \o one(7, 4) \o [e \in 1..8 |-> <<<<3, 16 - e>>, <<5, e>>>>] \o [e \in 1..4 |-> <<<<7, e>>, <<3, 3 * e>>, <<5, 9 - e>>>>]
PowerGroups(z) ==
  LET fs == PowerFs(0)
  IN Chunks([k \in 1..(N * Len(fs)) |-> ChainRand(WalkCurve(2400 + k, 5), fs[1 + ((k - 1) % Len(fs))], 70000 + 100 * k, 6)], 4)

\* scalar-defined kernels
ScalarCase(A, f, m, B, pts) == Ev("ec.scalar", <<HH(A), f, H(m), IF B = <<>> THEN <<>> ELSE PHs(B), PHs(pts)>>)
ScalarGroups(z) ==
  LET fs == IF Big1 THEN << <<<<3,2>>>>, <<<<5,1>>,<<7,2>>>>, <<<<19,2>>,<<3,3>>>>, <<<<127,1>>>> >> ELSE << D1F, D2F, Rev(D1F), Rev(D2F), <<D1F[1]>>, DA1F \o DA2F, OddPart(0) >>
      cs == Force([k \in 1..3 |-> IF k = 1 THEN E0A ELSE WalkCurve(2000 + k, k + 3)])
      ms(f, s) == LET D == FProd(f) IN << BZero, BOne, BSub(D, BOne), BMod(BNat(f[1][1]), D), BDiv(D, BNat(f[1][1])), BMod(BTwo, D), BDiv(D, BTwo) >> \o [k \in 1..N |-> Special(s, k, f)]
  IN Concat([k \in 1..Len(fs) |->
       LET A == cs[1 + (k % 3)]
           B == TorBasis(A, fs[k], 2010 + 10 * k)
           m == ms(fs[k], 2100 + k)
           R == Force(<<RandPoint(A, 2200 + k, 1), RandPoint(A, 2210 + k, 1)>>)
           pts == Force(<<EcAdd(A, R[1], R[2]), R[1], EcMul(A, R[2], BDiv(PPlus1, Two(BB)))>>)
       IN Chunks([j \in 1..Len(m) |-> ScalarCase(A, fs[k], m[j], IF j % 3 = 0 THEN <<>> ELSE B, pts)], 4)])
\* random walks: the degree is visible in the pairing of the images
RandomGroups(z) ==
  LET fs == IF Big1 THEN << <<<<3,1>>>>, <<<<3,2>>,<<5,1>>>>, <<<<59,1>>>> >> ELSE << D1F, D2F, DA1F, DA2F, Rev(D1F), <<D1F[1]>> >>
  IN [k \in 1..Len(fs) |-> LET A == IF k % 2 = 0 THEN E0A ELSE WalkCurve(2300 + k, k + 2)
                               n == <<<<2, BB>>>>
                           IN [j \in 1..N |-> LET B == TorBasis(A, n, 2310 + 10 * k + 100 * j)
                                              IN Ev("ec.random", <<HH(A), fs[k], 1 + (j % 4), PHs(B), n>>)]]
Groups(z) == CASE What = "isom" -> IsomGroups(0) [] What = "chain" -> ChainGroups(0) [] What = "large" -> LargeGroups(0)
               [] What = "scalar" -> ScalarGroups(0) [] What = "random" -> RandomGroups(0) [] What = "powers" -> PowerGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
