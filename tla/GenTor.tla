------------------------------- MODULE GenTor -------------------------------
(* Cases for orders, pairings, discrete logarithms, kernel scalars, torsion *)
(* bases and the integer helpers (P13 - P17, P19).                          *)
EXTENDS EcPool
What == EnvOr("GEN", "order")
N == BToInt(BHex(EnvOr("SIZE_HEX", "20")))
Big1 == BBits(PP) > 200
Tiny == BBits(PP) < 11
IsT20 == D1F[1][1] = 7

\* ------------------------------------------------------ factored orders
Rev(f) == [k \in 1..Len(f) |-> f[Len(f) + 1 - k]]
Rot(f, r) == [k \in 1..Len(f) |-> f[1 + ((k - 1 + r) % Len(f))]]
Swap(f) == IF Len(f) < 2 THEN f ELSE <<f[2], f[1]>> \o SubSeq(f, 3, Len(f))
\* a random subset in a random rotation, exponents lowered at random
SubFac(f, s, i) ==
  LET keep == SelectSeq([k \in 1..Len(f) |-> <<f[k][1], f[k][2] - RInt(s, i * 64 + k, f[k][2] + 1)>>], LAMBDA le : le[2] > 0)
      few == SelectSeq([k \in 1..Len(keep) |-> <<keep[k], RInt(s + 1, i * 64 + k, 3)>>], LAMBDA v : v[2] = 0)
      h == IF few = <<>> THEN <<f[1]>> ELSE [k \in 1..Len(few) |-> few[k][1]]
  IN Rot(h, RInt(s + 2, i, Len(h)))
TwoF(k) == << <<2, k>> >>
SmallFacs == [x \in {"7", "23", "31", "47", "71", "79", "103", "127", "191", "239", "719"} |->
   CASE x = "7" -> <<<<2,3>>>> [] x = "23" -> <<<<2,3>>, <<3,1>>>> [] x = "31" -> <<<<2,5>>>> [] x = "47" -> <<<<2,4>>, <<3,1>>>>
     [] x = "71" -> <<<<2,3>>, <<3,2>>>> [] x = "79" -> <<<<2,4>>, <<5,1>>>> [] x = "103" -> <<<<2,3>>, <<13,1>>>> [] x = "127" -> <<<<2,7>>>>
     [] x = "191" -> <<<<2,6>>, <<3,1>>>> [] x = "239" -> <<<<2,4>>, <<3,1>>, <<5,1>>>> [] x = "719" -> <<<<2,4>>, <<3,2>>, <<5,1>>>>]
\* the whole of p+1, and its odd part
WholeF == IF Tiny THEN SmallFacs[EnvOr("FESTA_TOY_P", "7")]
          ELSE LET \* the cofactor of the full prime is one of the primes of D2
                   D2C == [k \in 1..Len(D2F) |-> IF D2F[k][1] = Cofactor THEN <<Cofactor, D2F[k][2] + 1>> ELSE D2F[k]]
               IN <<<<2, BB>>>> \o D1F \o D2C \o DA1F \o DA2F
OddF == SelectSeq(WholeF, LAMBDA le : le[1] # 2)
Single(k) == <<WholeF[k]>>
PrimeOnly(k) == << <<WholeF[k][1], 1>> >>

\* -------------------------------------------------------------- orders
\* T has order f; multiples of T that have the order, that miss one prime, ...
Mults(f, s) ==
  LET D == FProd(f)
      one == Concat([k \in 1..Len(f) |-> << BNat(f[k][1]), BPow(BNat(f[k][1]), f[k][2]), BDiv(D, BNat(f[k][1])), BDiv(D, BPow(BNat(f[k][1]), f[k][2])) >>])
      two == IF Len(f) < 2 THEN <<>> ELSE [k \in 1..Len(f) |-> BDiv(D, BMul(BNat(f[k][1]), BNat(f[1 + (k % Len(f))][1])))]
  IN <<BZero, BOne, BSub(D, BOne), BTwo>> \o one \o two \o [k \in 1..2 |-> RBelow(s, k, D)] \o [k \in 1..4 |-> ResMix(s + 1, k, f)]
OrderFacs(s) ==
  IF Big1 THEN <<WholeF, OddF, Rev(OddF), D1F, D2F, Swap(DA2F), <<WholeF[1]>>, <<WholeF[2]>>, <<<<3, 1>>>>, <<<<2, 5>>>>>> \o [k \in 1..N |-> SubFac(WholeF, s, k)]
  ELSE
  <<WholeF, Rev(WholeF)>> \o (IF OddF = <<>> THEN <<>> ELSE <<OddF, Rev(OddF), Swap(OddF)>>)
  \o (IF Tiny THEN <<>> ELSE <<D1F, D2F, DA1F, DA2F, D1F \o D2F, Rev(D1F), DA1F \o DA2F, Swap(D2F)>>)
  \o [k \in 1..Len(WholeF) |-> Single(k)] \o [k \in 1..Len(WholeF) |-> PrimeOnly(k)]
  \o [k \in 1..N |-> SubFac(WholeF, s, k)] \o (IF OddF = <<>> THEN <<>> ELSE [k \in 1..N |-> SubFac(OddF, s + 5, k)])
F2Tor(f, s) ==    \* an element of order f, by projection of random elements on the norm-1 group
  LET c == BDiv(PPlus1, FProd(f))
      try(k) == LET x == RNonZero(s, k) IN F2Pow(F2Mul(F2Conj(x), F2Inv(x)), c)
      RECURSIVE Find(_)
      Find(k) == LET v == try(k) IN IF F2OrderIs(v, f) THEN v ELSE Find(k + 1)
  IN Find(1)
OrderGroups(z) ==
  LET fs == OrderFacs(700)
      cs == IF Big1 THEN <<WalkCurve(701, 9)>> ELSE <<E0A, WalkCurve(701, IF Tiny THEN 2 ELSE 9)>>
      W == FProd(WholeF)
      Ts == Force([c \in 1..Len(cs) |-> TorsionPoint(cs[c], WholeF, 702 + c, 1)])
      gg == F2Tor(WholeF, 710)
  IN Concat([k \in 1..Len(fs) |->
       LET f == fs[k]
           A == cs[1 + (k % Len(cs))]
           D == FProd(f)
           T == EcMul(A, Ts[1 + (k % Len(cs))], BDiv(W, D))
           g == F2Pow(gg, BDiv(W, D))
           allm == Mults(f, 720 + k)
           ms == IF Big1 THEN SubSeq(allm, 1, 3) \o Sub(allm, 721 + k, 3 + (N \div 6)) ELSE allm
           m2 == IF Big1 THEN SubSeq(allm, 1, 3) \o Sub(allm, 724 + k, 12 + N) ELSE allm
       IN << [j \in 1..Len(ms) |-> Ev("ec.order", <<HH(A), PH(EcMul(A, T, ms[j])), f, ZFor(<<F2One>>, 722, 100 * k + j)>>)],
             [j \in 1..Len(m2) |-> Ev("ec.f2order", <<HH(F2Pow(g, m2[j])), f>>)] >>])
     \o (IF ~Tiny THEN <<>> ELSE
          \* every element of the group annihilated by p+1
          Chunks(Concat([c \in 1..1 |-> LET pts == AllPoints(E0A) IN [k \in 1..(IF Len(pts) < 700 THEN Len(pts) ELSE 700) |-> Ev("ec.order", <<HH(E0A), PH(pts[k]), IF k % 2 = 0 THEN WholeF ELSE Rev(WholeF), ZFor(pts[k], 723, k)>>)]]), 200)
          \o << [k \in 1..BToInt(PPlus1) |-> Ev("ec.f2order", <<HH(F2Pow(gg, BNat(k - 1))), IF k % 2 = 0 THEN WholeF ELSE Rev(WholeF)>>)] >>)

\* ------------------------------------------------------------- pairings
WeilCase(A, P, Q, n, s, i) == Ev("ec.weil", <<HH(A), PH(P), PH(Q), H(n), ZFor(P, s, 2 * i), ZFor(Q, s, 2 * i + 1)>>)
Coefs(f, s) ==
  LET D == FProd(f)
      l == BNat(f[1][1])
      m == BNat(f[Len(f)][1])
  IN << BZero, BOne, BSub(D, BOne), BMod(BTwo, D), BMod(BNat(3), D), BMod(l, D), BDiv(D, l), BDiv(D, m), BSub(D, BDiv(D, l)), BDiv(D, BTwo), RBelow(s, 1, D), RBelow(s, 2, D), ResMix(s + 10, 1, f), ResMix(s + 11, 2, f), Pat(s + 12, 1, D), Pat(s + 13, 2, D) >>
TateCase(A, P, Q, n, s, i) == [WeilCase(A, P, Q, n, s, i) EXCEPT !.op = "ec.tate"]
WeilOn(A, B, f, s, n) ==
  LET D == FProd(f)
      cf == Coefs(f, s)
      pt(k) == Lin(A, B[1], B[2], cf[1 + (k % Len(cf))], cf[1 + ((k \div Len(cf)) % Len(cf))])
      fixed == << <<B[1], B[2]>>, <<B[2], B[1]>>, <<B[1], B[1]>>, <<B[1], EcNeg(B[1])>>, <<B[1], EcDbl(A, B[1])>>, <<EcDbl(A, B[1]), B[1]>>,
                  <<B[1], Inf>>, <<Inf, B[2]>>, <<Inf, Inf>>, <<B[1], EcMul(A, B[1], BNat(3))>>, <<B[1], EcMul(A, B[1], RBelow(s, 7, D))>>,
                  <<EcMul(A, B[2], RBelow(s, 8, D)), B[2]>>, <<EcMul(A, B[1], BDiv(D, BNat(f[1][1]))), B[2]>>, <<B[1], EcMul(A, B[2], BDiv(D, BNat(f[1][1])))>>,
                  <<EcMul(A, B[1], BDiv(D, BNat(f[1][1]))), EcMul(A, B[1], BDiv(D, BNat(f[1][1])))>>, <<EcMul(A, B[1], BNat(f[1][1])), B[1]>>,
                  <<EcAdd(A, B[1], B[2]), EcSub(A, B[1], B[2])>>, <<EcAdd(A, B[1], B[2]), EcNeg(EcAdd(A, B[1], B[2]))>> >>
      rnd == [k \in 1..n |-> <<pt(RInt(s + 3, k, Len(cf) * Len(cf))), pt(RInt(s + 4, k, Len(cf) * Len(cf)))>>]
      all == fixed \o rnd
  IN [k \in 1..Len(all) |-> WeilCase(A, all[k][1], all[k][2], D, s + 5, k)]
     \o [k \in 1..Len(all) |-> TateCase(A, all[k][1], IF k % 3 = 0 THEN EcAdd(A, all[k][2], RandPoint(A, s + 7, 50 * k)) ELSE all[k][2], D, s + 6, k)]
WeilFacs == IF Big1 THEN << <<<<3,1>>>>, <<<<3,6>>>>, <<<<2,1>>>>, <<<<2,2>>>>, <<<<2,5>>>>, <<<<2,BB>>>>, DA1F, DA2F, <<<<3,1>>,<<5,1>>>>, <<<<2,3>>,<<7,2>>>>, <<<<41161,1>>>>, <<<<19,2>>>> >>
            ELSE << WholeF, D1F, D2F, DA1F, DA2F, <<<<2,1>>>>, <<<<2,2>>>>, <<<<2,BB>>>>, D1F \o D2F, <<D1F[1]>>, <<D2F[2]>>, <<<<2,3>>>> \o D2F >>
\* whole torsion groups of tiny curves
TinyWeil(A, f, s) ==
  LET B == TorBasis(A, f, s)
      D == BToInt(FProd(f))
      pt == Concat([a \in 1..D |-> [b \in 1..D |-> Lin(A, B[1], B[2], BNat(a - 1), BNat(b - 1))]])
      oth == IF Len(pt) <= 64 THEN pt ELSE Sub(pt, s + 9, N)
  IN Concat([k \in 1..Len(pt) |-> [j \in 1..Len(oth) |-> WeilCase(A, pt[k], oth[j], FProd(f), s + 10, 1000 * k + j)]])
TinyFacs == CASE EnvOr("FESTA_TOY_P", "7") = "7" -> << TwoF(1), TwoF(2), TwoF(3) >>
              [] EnvOr("FESTA_TOY_P", "7") = "23" -> << TwoF(1), TwoF(2), <<<<3,1>>>>, <<<<2,1>>,<<3,1>>>>, WholeF >>
              [] OTHER -> << <<<<3,1>>>>, <<<<3,2>>>>, <<<<2,1>>,<<3,1>>>> >>
WeilGroups(z) ==
  IF Tiny THEN Concat([k \in 1..Len(TinyFacs) |-> Chunks(TinyWeil(E0A, TinyFacs[k], 800 + 20 * k) \o TinyWeil(WalkCurve(100, 2), TinyFacs[k], 810 + 20 * k), 300)])
  ELSE LET fs == WeilFacs
       IN Concat([k \in 1..Len(fs) |->
            LET A == IF k % 3 = 0 THEN WalkCurve(820, 8) ELSE E0A
                B == TorBasis(A, fs[k], 821 + 10 * k)
            IN Chunks(WeilOn(A, B, fs[k], 822 + 10 * k, IF Big1 /\ BBits(FProd(fs[k])) > 40 THEN N \div 4 ELSE 3 * N), 10)])

\* -------------------------------------------------------- dlogs in Fp2
DlogExps(D, f, s, n) ==
  << BZero, BOne, BSub(D, BOne), BMod(BTwo, D), BDiv(D, BTwo) >>
  \o [k \in 1..Len(f) |-> BMod(BNat(f[k][1]), D)] \o [k \in 1..Len(f) |-> BDiv(D, BNat(f[k][1]))]
  \o [k \in 1..Len(f) |-> BSub(D, BDiv(D, BPow(BNat(f[k][1]), f[k][2])))]
  \o [k \in 1..n |-> RBelow(s, k, D)] \o [k \in 1..n |-> Special(s + 100, k, f)]
PhFacs(s) == <<D1F, Rev(D1F), Swap(D2F), DA1F, Rev(DA2F), <<<<2, BB>>>>, <<<<2, IF Big1 THEN 64 ELSE 5>>>> \o DA1F, D2F>> \o [k \in 1..N |-> SubFac(OddF, s, k)]
DlogGroups(z) ==
  LET gg == F2Tor(WholeF, 900)
      W == FProd(WholeF)
      El(D) == F2Pow(gg, BDiv(W, D))
      ps == SelectSeq([k \in 1..Len(WholeF) |-> WholeF[k]], LAMBDA le : TRUE)
      comps == SelectSeq([k \in 1..40 |-> k], LAMBDA k : BIsZero(BMod(W, BNat(k))))
      bs(n) == LET g == El(BNat(n))
                   es == IF n <= 40 THEN [k \in 1..n |-> k - 1] ELSE <<0, 1, 2, n - 1, n - 2, n \div 2>> \o [k \in 1..8 |-> RInt(901, n + k, n)]
                         \o (LET r == BToInt(BSqrt(BNat(n))) IN <<r - 1, r, r + 1, n - r, n - r - 1, n - r - 2, r * (r - 1), r * (r - 1) - 1>>)
               IN [k \in 1..Len(es) |-> Ev("ec.bsgs", <<HH(F2Pow(g, BNat(es[k]))), HH(g), n>>)]
      pp(l, e) == LET D == BPow(BNat(l), e)
                      g == El(D)
                      es == DlogExps(D, <<<<l, e>>>>, 902 + l, 3)
                  IN [k \in 1..Len(es) |-> Ev("ec.phpow", <<HH(F2Pow(g, es[k])), HH(g), l, e>>)]
      ph(f, s) == LET D == FProd(f)
                      u == RBelow(s + 1, 1, D)
                      g == El(D)
                      es == DlogExps(D, f, s, 3)
                      sub == IF Big1 THEN SubSeq(es, 1, 4) \o Sub(es, s + 2, 3) ELSE es
                  IN [k \in 1..Len(sub) |-> Ev("ec.ph", <<HH(F2Pow(g, sub[k])), HH(g), f>>)]
      fs == PhFacs(903)
  IN Concat([k \in 1..Len(comps) |-> <<bs(comps[k])>>]) \o Concat([k \in 1..Len(OddF) |-> <<bs(OddF[k][1])>>])
     \o Concat([k \in 1..Len(OddF) |-> IF OddF[k][2] > 1 \/ k % 3 = 0 THEN <<pp(OddF[k][1], OddF[k][2])>> ELSE <<>>])
     \o << pp(2, 1), pp(2, 2), pp(2, 3), pp(2, IF Big1 THEN 33 ELSE BB), pp(3, 1), pp(3, 2) >>
     \o Concat([k \in 1..Len(fs) |-> Chunks(ph(fs[k], 910 + 3 * k), 5)])

\* --------------------------------------------- coordinates with respect to a basis
BidlpCase(A, R, B, f, s, i) == Ev("ec.bidlp", <<HH(A), PH(R), PH(B[1]), PH(B[2]), f, HH(ZChoice(s, i))>>)
BidlpOn(A, B, f, s, n) ==
  LET D == FProd(f)
      cf == Coefs(f, s)
      prs == << <<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>, <<2,0>>, <<0,2>>, <<2,2>>, <<3,0>>, <<0,3>>, <<1,2>>, <<2,1>>, <<6,0>>, <<0,6>>, <<6,6>>, <<5,1>>, <<1,5>>, <<10,11>>, <<5,6>> >>
      all == [k \in 1..Len(prs) |-> <<cf[prs[k][1] + 1], cf[prs[k][2] + 1]>>]
             \o [k \in 1..n |-> <<RPick(s + 1, k, cf), RPick(s + 2, k, cf)>>]
  IN [k \in 1..Len(all) |-> BidlpCase(A, Lin(A, B[1], B[2], all[k][1], all[k][2]), B, f, s + 3, k)]
\* another basis: change by an invertible matrix, so that the basis is nothing special
Mix(A, B, s) == LET a == RInt(s, 1, 1000)
                    P2 == EcAdd(A, B[1], EcMul(A, B[2], BNat(a)))
                IN IF a % 2 = 0 THEN <<P2, B[2]>> ELSE <<EcNeg(B[2]), P2>>
TinyBidlp(A, f, s) ==
  LET B == TorBasis(A, f, s)
      D == BToInt(FProd(f))
  IN Concat([a \in 1..D |-> [b \in 1..D |-> BidlpCase(A, Lin(A, B[1], B[2], BNat(a - 1), BNat(b - 1)), B, f, s + 10, 1000 * a + b)]])
BidlpGroups(z) ==
  LET fs == IF Big1 THEN << D1F, <<<<71,1>>>>, <<<<3,6>>>>, Rev(DA1F), D2F, <<<<19,2>>,<<3,2>>>>, SubFac(OddF, 930, 1), SubFac(OddF, 930, 2) >>
            ELSE << D1F, D2F, Rev(D1F), DA1F \o DA2F, D1F \o D2F, OddF, <<<<2,BB>>>>, <<<<2,3>>>> \o D1F, WholeF >>
      cs == <<E0A, WalkCurve(931, 7)>>
  IN Concat([k \in 1..Len(fs) |->
       LET A == cs[1 + (k % 2)]
           B == Mix(A, TorBasis(A, fs[k], 932 + 10 * k), 933 + k)
       IN Chunks(BidlpOn(A, B, fs[k], 940 + 10 * k, IF Big1 THEN N ELSE 6 * N), 6)])
     \o (IF Big1 THEN Chunks(TinyBidlp(E0A, <<<<3,2>>>>, 950), 20) \o Chunks(TinyBidlp(E0A, <<<<5,1>>>>, 951), 20)
         ELSE Chunks(TinyBidlp(E0A, IF IsT20 THEN <<<<3,2>>>> ELSE <<<<3,2>>>>, 950), 40) \o Chunks(TinyBidlp(WalkCurve(931, 4), IF IsT20 THEN <<<<5,1>>>> ELSE <<<<11,1>>>>, 951), 40)
              \o Chunks(TinyBidlp(WalkCurve(931, 5), TwoF(3), 952), 40) \o Chunks(TinyBidlp(WalkCurve(931, 6), IF IsT20 THEN <<<<7,1>>, <<2,1>>>> ELSE <<<<7,1>>, <<2,1>>>>, 953), 40))

\* ------------------------------------------------------ kernel scalars
KernelCase(A, X, Y, f, B) == Ev("ec.kernel", <<HH(A), PH(X), PH(Y), f, PHs(B)>>)
\* (u, v) with gcd(u, v, D) = 1: the primes are split at random
SplitPair(f, s, i) ==
  LET part == [k \in 1..Len(f) |-> RInt(s, 64 * i + k, 4)]
      prod(c) == FoldLeft(LAMBDA acc, k : IF part[k] = c THEN BMul(acc, BPow(BNat(f[k][1]), 1 + RInt(s + 1, 64 * i + k, f[k][2]))) ELSE acc, BOne, [k \in 1..Len(f) |-> k])
      D == FProd(f)
      fix(w) == IF w = BZero THEN BOne ELSE w
      \* a unit modulo D
      unit(j) == LET RECURSIVE U(_)
                     U(q) == LET x == RBelow(s + 2 + j, 100 * i + q, D)
                             IN IF \A k \in 1..Len(f) : ~BIsZero(BMod(x, BNat(f[k][1]))) THEN x ELSE U(q + 1)
                 IN U(1)
  IN <<BMod(BMul(unit(0), prod(0)), D), BMod(BMul(unit(1), prod(1)), D)>>
KernelOn(A, B, f, s, n) ==
  LET D == FProd(f)
      ss == << BZero, BOne, BSub(D, BOne), BMod(BNat(f[1][1]), D), BDiv(D, BNat(f[1][1])), BMod(BNat(f[Len(f)][1]), D), BDiv(D, BNat(f[Len(f)][1])) >> \o [k \in 1..n |-> IF k % 3 = 0 THEN RBelow(s, k, D) ELSE Special(s + 500, k, f)]
  IN Concat([k \in 1..Len(ss) |->
       LET K == EcAdd(A, B[1], EcMul(A, B[2], ss[k]))
           pr == Force([j \in 1..2 |-> SplitPair(f, s + 10 * j, k)])
           c == k % 5
       IN << IF c = 0 THEN KernelCase(A, K, Inf, f, B) ELSE IF c = 1 THEN KernelCase(A, Inf, K, f, B) ELSE IF c = 2 THEN KernelCase(A, K, K, f, B)
             ELSE IF c = 3 THEN KernelCase(A, EcNeg(K), K, f, B) ELSE KernelCase(A, EcMul(A, K, BNat(f[1][1])), K, f, B) >>
          \o [j \in 1..2 |-> KernelCase(A, EcMul(A, K, pr[j][1]), EcMul(A, K, pr[j][2]), f, B)]])
KernelGroups(z) ==
  LET fs == IF Big1 THEN << D1F, D2F, <<<<3,6>>>>, SubFac(OddF, 960, 1) >> ELSE << D1F, D2F, Rev(D1F), DA1F \o DA2F, OddF, <<D1F[1]>>, <<D1F[2]>> >>
      cs == <<E0A, WalkCurve(961, 7)>>
  IN Concat([k \in 1..Len(fs) |->
       LET A == cs[1 + (k % 2)]
           B == Mix(A, TorBasis(A, fs[k], 962 + 10 * k), 963 + k)
       IN Chunks(KernelOn(A, B, fs[k], 970 + 50 * k, N), 2)])
     \o (IF Big1 THEN <<>> ELSE
         LET f == IF D1F[1][1] > 1000 THEN DA2F ELSE <<D1F[1]>>
             D == BToInt(FProd(f))
             A == E0A
             B == TorBasis(A, f, 980)
             K(sc) == EcAdd(A, B[1], EcMul(A, B[2], BNat(sc)))
             l == f[1][1]
         IN Chunks(Concat([sc \in 1..D |-> Concat([u \in 1..(IF D < 12 THEN D ELSE 12) |-> LET vs == SelectSeq([v \in 1..(IF D < 12 THEN D ELSE 12) |-> v - 1], LAMBDA v : (u - 1) % l # 0 \/ v % l # 0)
              IN [j \in 1..Len(vs) |-> KernelCase(A, EcMul(A, K(sc - 1), BNat(u - 1)), EcMul(A, K(sc - 1), BNat(vs[j])), f, B)]])]), 60))

\* --------------------------------------------------------------- bases
EvenOf(D) == BB       \* the whole power of two when D is odd
BasisGroups(z) ==
  LET fs == IF Big1 THEN << D1F, D2F, DA1F, DA2F, <<<<3,1>>>>, <<<<3,6>>>>, <<<<41161,1>>>>, Rev(D1F), SubFac(OddF, 1000, 1) >>
            ELSE << D1F, D2F, DA1F, DA2F, <<D1F[1]>>, Rev(D1F), OddF, DA1F \o DA2F, SubFac(OddF, 1000, 1), SubFac(OddF, 1000, 2) >>
      nc == IF Big1 THEN 2 + N \div 4 ELSE N
      cs == Force([k \in 1..nc |-> IF k = 1 THEN E0A ELSE WalkCurve(1001 + k, 4 + k)])
      ev(k) == IF k % 3 = 0 THEN RInt(1002, k, BB + 1) ELSE BB
      odd == Concat([c \in 1..nc |-> [k \in 1..Len(fs) |-> Ev("ec.basis", <<HH(cs[c]), fs[k], ev(k)>>)]])
      oddsub == IF Big1 THEN SubSeq(odd, 1, Len(fs)) \o Sub(SubSeq(odd, Len(fs) + 1, Len(odd)), 1003, N) ELSE odd
      twos == [c \in 1..nc |-> Ev("ec.basis", <<HH(cs[c]), TwoF(IF c % 2 = 0 THEN BB ELSE 1 + RInt(1004, c, BB)), 0>>)]
      big == IF Big1 THEN <<>> ELSE [c \in 1..nc |-> Ev("ec.basis", <<HH(cs[c]), WholeF, 0>>)]
      ent == [c \in 1..(nc * (IF Big1 THEN 4 ELSE 8)) |-> LET A == IF c = 1 THEN E0A ELSE WalkCurve(1005 + c, 2 + (c % 9)) IN Ev("ec.ebasis", <<HH(A), H(BDiv(PPlus1, BPow(BTwo, BB)))>>)]
      hard == [k \in 1..Len(HardA(0)) |-> Ev("ec.ebasis", <<HH(HardA(0)[k]), H(BDiv(PPlus1, BPow(BTwo, BB)))>>)]
      okent == hard \o SelectSeq(ent, LAMBDA e : e.a[1] # HH(F2Zero))
      gen == Concat([c \in 1..nc |-> LET f == fs[1 + (c % Len(fs))] IN << Ev("ec.genpt", <<HH(cs[c]), f, BB>>), Ev("ec.genrnd", <<HH(cs[c]), f, BB>>), Ev("ec.genpt", <<HH(cs[c]), TwoF(BB), 0>>) >>])
      clr == [k \in 1..N |-> LET A == cs[1 + (k % nc)]
                                 e == RInt(1006, k, 70)
                                 P == IF k % 5 = 0 THEN Inf ELSE RandPoint(A, 1007 + k, 1)
                             IN Ev("ec.clear", <<HH(A), PH(P), H(BShl(RBits(1008, k, 1 + RInt(1009, k, 900)), e)), e, ZFor(P, 1010, k)>>)]
  IN Chunks(oddsub \o twos \o big \o gen, 1) \o Chunks(okent, 4) \o Chunks(clr, 10)

\* ----------------------------------------------------- integer helpers
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF BIsZero(b) THEN a ELSE BGcd(b, BMod(a, b))
IntGroups(z) ==
  LET vals(s) == [k \in 1..N |-> IF k % 4 = 3 THEN BAdd(BOne, Pat(s + 2, k, Two(2 + RInt(s + 1, k, 700)))) ELSE BAdd(BOne, RBits(s, k, 1 + RInt(s + 1, k, IF k % 3 = 0 THEN 12 ELSE IF k % 3 = 1 THEN 70 ELSE 700)))]
      mods == <<BOne, BTwo, BNat(3), Two(32), Two(64), Two(BB), FProd(D1F), FProd(D2F), FProd(DA1F), FProd(DA2F), PP, PPlus1, BSub(Two(64), BOne), BNat(65537)>> \o vals(1100)
      xs(m, k) == <<BOne, BTwo, BNat(3), BAdd(m, BOne), BSub(BShl(m, 1), BOne), m, BAdd(BShl(m, 70), BOne)>> \o (IF BLt(BTwo, m) THEN <<BSub(m, BOne)>> ELSE <<>>)
                  \o [j \in 1..4 |-> RBits(1101, 50 * k + j, 1 + RInt(1102, 50 * k + j, 700))] \o [j \in 1..4 |-> Pat(1103, 50 * k + j, BShl(m, 1))]
      pairs == Concat([k \in 1..Len(mods) |-> LET v == xs(mods[k], k)
                                                  c == SelectSeq(v, LAMBDA x : ~BIsZero(x) /\ BGcd(x, mods[k]) = BOne)
                                              IN [j \in 1..Len(c) |-> Ev("int.xgcd", <<H(c[j]), H(mods[k])>>)]])
      small == Concat([m \in 1..40 |-> LET c == SelectSeq([x \in 1..80 |-> x], LAMBDA x : BGcd(BNat(x), BNat(m)) = BOne)
                                       IN [j \in 1..Len(c) |-> Ev("int.xgcd", <<H(BNat(c[j])), H(BNat(m))>>)]])
      pf == << D1F, D2F, DA1F, DA2F, Rev(D1F), OddF, Rev(OddF), <<<<3,2>>,<<5,1>>,<<7,3>>>>, <<<<7,3>>,<<5,1>>,<<3,2>>>>, <<<<2,5>>,<<3,1>>>>, <<<<3,1>>,<<2,5>>>>, <<<<5,1>>>>, <<<<2,BB>>>> \o D1F,
               <<<<2,31>>,<<65537,2>>>>, <<<<65521,1>>,<<65519,1>>,<<2,1>>>> >> \o [k \in 1..N |-> SubFac(OddF, 1110, k)]
      rem(f, s, i) == [k \in 1..Len(f) |-> LET m == BPow(BNat(f[k][1]), f[k][2])
                                               c == RInt(s, 50 * i + k, 6)
                                           IN H(IF c = 0 THEN BZero ELSE IF c = 1 THEN BSub(m, BOne) ELSE IF c = 2 THEN BMod(BNat(f[k][1]), m) ELSE RBelow(s + 1, 50 * i + k, m))]
      const(f, v) == [k \in 1..Len(f) |-> H(BMod(v, BPow(BNat(f[k][1]), f[k][2])))]
      crt == Concat([k \in 1..Len(pf) |->
               << Ev("int.crt", <<const(pf[k], BZero), pf[k]>>), Ev("int.crt", <<const(pf[k], BOne), pf[k]>>), Ev("int.crt", <<const(pf[k], BSub(FProd(pf[k]), BOne)), pf[k]>>),
                  \* remainders that are not reduced are remainders all the same
                  Ev("int.crt", <<[j \in 1..Len(pf[k]) |-> H(FProd(D1F))], pf[k]>>) >>
               \o [j \in 1..4 |-> Ev("int.crt", <<rem(pf[k], 1120, 10 * k + j), pf[k]>>)]])
      tinycrt == Concat([a \in 1..9 |-> Concat([b \in 1..5 |-> [c \in 1..4 |-> Ev("int.crt", <<<<H(BNat(a - 1)), H(BNat(b - 1)), H(BNat(c - 1))>>, <<<<3,2>>,<<5,1>>,<<2,2>>>>>>)]])])
      sq(k) == BMul(BNat(k), BNat(k))
      roots == [k \in 1..300 |-> k] \o [k \in 1..40 |-> 65536 - k] \o [k \in 1..60 |-> 1 + RInt(1130, k, 65535)] \o [k \in 1..16 |-> 2 ^ (k - 1)]
      sqs == Concat([k \in 1..Len(roots) |-> LET v == sq(roots[k]) IN <<v, BSub(v, BOne), BAdd(v, BOne), BAdd(v, BNat(2 * roots[k]))>>])
             \o [k \in 1..64 |-> BSub(Two(32), BNat(k))] \o [k \in 1..32 |-> BSub(Two(k), BOne)] \o [k \in 1..31 |-> Two(k)] \o [k \in 1..(2 * N) |-> RBits(1131, k, 32)] \o [k \in 1..300 |-> BNat(k - 1)]
      s32 == SelectSeq(sqs, LAMBDA v : BBits(v) <= 32)
      sch == Chunks([k \in 1..Len(s32) |-> H(s32[k])], 50)
  IN Chunks(pairs \o small, 50) \o Chunks(crt \o tinycrt, 40) \o [k \in 1..Len(sch) |-> <<Ev("int.sqrt", <<sch[k]>>)>>]

Groups(z) == CASE What = "order" -> OrderGroups(0) [] What = "weil" -> WeilGroups(0) [] What = "dlog" -> DlogGroups(0) [] What = "bidlp" -> BidlpGroups(0)
               [] What = "kernel" -> KernelGroups(0) [] What = "basis" -> BasisGroups(0) [] What = "ints" -> IntGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
