------------------------------ MODULE GenTheta -------------------------------
(* Cases for the two-dimensional chain (P20) and its strategies (P21).     *)
EXTENDS EcPool, Diamonds
What == EnvOr("GEN", "theta")
N == BToInt(BHex(EnvOr("SIZE_HEX", "20")))
MaxLen == BToInt(BHex(EnvOr("MAXLEN_HEX", "400")))
MinLen == BToInt(BHex(EnvOr("MINLEN_HEX", "1")))
OddOrder == BDiv(PPlus1, Two(BB))

\* ------------------------------------------------------------ strategies
RECURSIVE RStrat(_, _, _)
RStrat(s, i, n) == IF n = 1 THEN <<>>
                   ELSE LET b == 1 + RInt(s, i, n - 1)
                        IN <<b>> \o RStrat(s, (i * 31 + b) % 1000003, n - b) \o RStrat(s, (i * 17 + b + 5) % 1000003, b)
RECURSIVE AllStrats(_)
AllStrats(n) == IF n = 1 THEN << <<>> >>
                ELSE Concat([b \in 1..(n - 1) |-> LET x == AllStrats(n - b)
                                                      y == AllStrats(b)
                                                  IN Concat([k \in 1..Len(x) |-> [j \in 1..Len(y) |-> <<b>> \o x[k] \o y[j]]])])
Ones(n) == [k \in 1..(n - 1) |-> 1]
Downs(n) == [k \in 1..(n - 1) |-> n - k]
RECURSIVE Halves2(_)
Halves2(n) == IF n = 1 THEN <<>> ELSE <<n \div 2>> \o Halves2(n - (n \div 2)) \o Halves2(n \div 2)
RECURSIVE Thirds(_)
Thirds(n) == IF n = 1 THEN <<>> ELSE IF n < 4 THEN Ones(n) ELSE <<n - (n \div 3)>> \o Thirds(n \div 3) \o Thirds(n - (n \div 3))
Strats(s, n, m) == <<Halves2(n), Ones(n), Downs(n), Thirds(n)>> \o [k \in 1..m |-> RStrat(s, k, n)]

\* ------------------------------------------------------------ diamonds
Scale(A, m, P) == EcMul(A, P, m)
\* everything about one row of the table, on the curve A
Dia(A, row, s) ==
  LET n == row[1]
      a == row[2]
      b == row[4]
      ma == BHex(row[3])
      mb == BHex(row[5])
      Kf == IF a = <<>> THEN Inf ELSE TorsionPoint(A, a, s + 1, 1)
      Kg == IF b = <<>> THEN Inf ELSE TorsionPoint(A, b, s + 2, 1)
      B == TorBasis(A, << <<2, n + 2>> >>, s + 3)
  IN [A |-> A, n |-> n, a |-> a, b |-> b, ma |-> ma, mb |-> mb, Kf |-> Kf, Kg |-> Kg, B |-> B,
      F |-> BMul(FProd(a), BMul(ma, ma)), G |-> BMul(FProd(b), BMul(mb, mb))]
\* pairs (U, V) whose images (f(U), g(V)) are asked for
\* the cyclic subgroups of order four
Fours == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>> >>
DiaPairs(d, s, np) ==
  LET A == d.A
      odd(i) == EcMul(A, RandPoint(A, s + i, 1), Two(BB))
      two(i) == EcMul(A, Lin(A, d.B[1], d.B[2], RBelow(s + 20 + i, 1, Two(d.n + 2)), RBelow(s + 30 + i, 1, Two(d.n + 2))), BNat(4))
      O1 == odd(1)
      O2 == odd(2)
      O3 == odd(3)
      T1 == two(1)
      Q4 == EcMul(A, d.B[2], BNat(4))
      P4 == EcMul(A, d.B[1], BNat(4))
      full == EcAdd(A, O2, Lin(A, d.B[1], d.B[2], BNat(3), BOne))
      \* points of order four (and eight), where coordinates of the first step vanish
      F1 == EcMul(A, d.B[1], Two(d.n))
      F2 == EcMul(A, d.B[2], Two(d.n))
      four(i) == Lin(A, F1, F2, BNat(RInt(s + 50, i, 4)), BNat(RInt(s + 51, i, 4)))
      H1 == EcMul(A, d.B[1], Two(d.n - 1))
      H2 == EcMul(A, d.B[2], Two(d.n - 1))
      eight(i) == Lin(A, H1, H2, BNat(RInt(s + 52, i, 8)), BNat(RInt(s + 53, i, 8)))
  IN Sub(<< <<F1, F1>>, <<F2, F2>>, <<EcAdd(A, F1, F2), EcAdd(A, F1, F2)>>, <<F1, EcNeg(F1)>> >>, s + 3, 2)
     \o << <<four(1), four(2)>>, <<four(3), four(4)>>, <<eight(1), eight(2)>> >>
     \* images of which one component has order four and the other is any point
     \o Sub([k \in 1..6 |-> LET X == Lin(A, d.B[1], d.B[2], BNat(Fours[k][1]), BNat(Fours[k][2]))
                            IN <<EcAdd(A, EcMul(A, O3, d.G), X), EcAdd(A, EcNeg(EcMul(A, O3, d.F)), X)>>], s + 4, 2)
     \o Sub([k \in 1..6 |-> <<O1, EcAdd(A, O1, Lin(A, F1, F2, BNat(Fours[k][1]), BNat(Fours[k][2])))>>], s + 5, 2)
     \o Sub(<< <<O1, O2>>, <<T1, T1>>, <<full, EcAdd(A, O1, T1)>>, <<EcAdd(A, O3, T1), EcAdd(A, O3, T1)>> >>, s + 1, 4)
     \o Sub(<< <<O1, O1>>, <<O1, Inf>>, <<Inf, O2>>, <<Inf, Inf>>, <<O1, EcNeg(O1)>>,
               <<EcMul(A, O3, d.G), EcNeg(EcMul(A, O3, d.F))>>, <<d.Kf, O2>>, <<O1, d.Kg>>, <<EcAdd(A, O1, d.Kf), EcAdd(A, O1, d.Kg)>>,
               <<P4, P4>>, <<Q4, Q4>>, <<EcAdd(A, P4, Q4), EcAdd(A, P4, Q4)>>,
               <<EcAdd(A, O1, T1), EcAdd(A, O2, T1)>>, <<EcAdd(A, O1, P4), O2>>, <<O1, full>>, <<full, Inf>>, <<Inf, full>>, <<full, full>>,
               <<EcAdd(A, O1, EcMul(A, P4, Two(d.n - 1))), EcAdd(A, O2, EcMul(A, Q4, Two(d.n - 1)))>>, <<EcMul(A, P4, Two(d.n - 1)), EcMul(A, P4, Two(d.n - 1))>>,
               <<EcNeg(O2), EcDbl(A, O2)>>, <<EcDbl(A, O1), EcNeg(O1)>>, <<EcMul(A, O1, BNat(3)), EcAdd(A, O1, O2)>> >>, s + 2, np)
Case(A, row, s, np, strats) ==
  LET d == Dia(A, row, s)
      uv == Force(DiaPairs(d, s + 40, np))
      us == [k \in 1..Len(uv) |-> uv[k][1]]
      vs == [k \in 1..Len(uv) |-> uv[k][2]]
      f == IF d.a = <<>> THEN <<A, Inf, <<d.B[1], d.B[2]>> \o us>> ELSE IsoChain(A, d.Kf, d.a, <<d.B[1], d.B[2]>> \o us)
      g == IF d.b = <<>> THEN <<A, Inf, <<d.B[1], d.B[2]>> \o vs>> ELSE IsoChain(A, d.Kg, d.b, <<d.B[1], d.B[2]>> \o vs)
      diff == [k \in 1..Len(uv) |-> EcSub(A, vs[k], us[k])]
      h == IF d.a \o d.b = <<>> THEN <<A, Inf, diff>> ELSE IsoChain(A, EcAdd(A, d.Kf, d.Kg), d.a \o d.b, diff)
      fi == Force([k \in 1..Len(f[3]) |-> Scale(f[1], d.ma, f[3][k])])
      gi == Force([k \in 1..Len(g[3]) |-> Scale(g[1], d.mb, g[3][k])])
      hi == Force([k \in 1..Len(h[3]) |-> Scale(h[1], BMul(d.ma, d.mb), h[3][k])])
      es == [k \in 1..Len(uv) |-> Lin(A, us[k], vs[k], d.F, d.G)]
  IN IF BAdd(d.F, d.G) # Two(d.n) THEN Assert(FALSE, row)
     ELSE Ev("th.chain", << HH(f[1]), HH(g[1]), <<PH(fi[1]), PH(gi[1])>>, <<PH(fi[2]), PH(gi[2])>>,
             [k \in 1..Len(uv) |-> <<PH(fi[k + 2]), PH(gi[k + 2])>>], d.n, strats, HH(ZChoice(s, 1)), HH(ZChoice(s, 2)),
             <<HH(A), PHs(es), HH(h[1]), PHs(hi)>> >>)

Steps == IF BBits(PP) > 200 THEN 24 ELSE 60
Rows(z) == SelectSeq(DiamondTable(DiamondName), LAMBDA r : r[1] <= MaxLen /\ r[1] >= MinLen)
\* N cases: all rows in turn, spread over the table when there are more rows
Chosen(s, n) == LET rs == Rows(0)
                    m == Len(rs)
                IN [k \in 1..n |-> IF m <= n THEN rs[1 + ((k - 1) % m)] ELSE rs[1 + ((((k - 1) * m) \div n + RInt(s, k, 7)) % m)]]
\* the stored strategy is written <<0>>
Stored(n) == IF n = StoredLen THEN << <<0>> >> ELSE <<>>
ThetaGroups(z) ==
  LET rs == Force(Chosen(3100, N))
  IN [k \in 1..Len(rs) |-> << Case(WalkCurve(3200 + k, Steps), rs[k], 40000 + 100 * k, IF k % 3 = 0 THEN 20 ELSE 8, Strats(3300 + k, rs[k][1], 1) \o Stored(rs[k][1])) >>]
\* every strategy of short chains, many of long ones
StratGroups(z) ==
  LET rs == Force(Chosen(3400, N))
  IN [k \in 1..Len(rs) |-> LET n == rs[k][1]
                           IN << Case(WalkCurve(3500 + k, Steps), rs[k], 60000 + 100 * k, 2,
                                      IF n <= 6 THEN AllStrats(n) ELSE Strats(3600 + k, n, 12) \o Stored(n)) >>]
\* the longest chains: a few strategies only
LongGroups(z) ==
  LET rs == Force(Chosen(3700, N))
  IN [k \in 1..Len(rs) |-> LET n == rs[k][1]
                           IN << Case(WalkCurve(3800 + k, 6), rs[k], 90000 + 100 * k, 6, (IF Stored(n) = <<>> THEN <<Halves2(n)>> ELSE Stored(n)) \o <<RStrat(3850 + k, 1, n)>>) >>]
\* ------------------------------------------------------------ structures
HHs4(v) == [k \in 1..Len(v) |-> HH(v[k])]
T4H(v) == [k \in 1..4 |-> HH(v[k])]
TensorG(x, y) == <<F2Mul(x[1], y[1]), F2Mul(x[2], y[1]), F2Mul(x[1], y[2]), F2Mul(x[2], y[2])>>
HadG(v) == LET A == F2Add(v[1], v[2])
               B == F2Sub(v[1], v[2])
               C == F2Add(v[3], v[4])
               D == F2Sub(v[3], v[4])
           IN <<F2Add(A, C), F2Add(B, D), F2Sub(A, C), F2Sub(B, D)>>
NullGood(O) == LET d == Force(HadG([k \in 1..4 |-> F2Sqr(O[k])])) IN \A k \in 1..4 : O[k] # F2Zero /\ d[k] # F2Zero
Kinds == << <<F2N(1), F2N(2)>>, <<F2N(3), F2N(1)>>, <<F2One, <<BZero, FRed(BNat(2))>> >>, <<F2One, <<BOne, BOne>> >> >>
RPair(s, i) == IF RInt(s, i, 3) = 0 THEN RPick(s + 1, i, Kinds) ELSE <<RNonZero(s + 2, 2 * i), RNonZero(s + 2, 2 * i + 1)>>
\* points of a structure of dimension one, among them those of order two and four
PairPoint(o, s, i) == LET c == RInt(s, i, 12)
                          a == o[1]
                          b == o[2]
                      IN IF c = 0 THEN <<a, b>> ELSE IF c = 1 THEN <<b, a>> ELSE IF c = 2 THEN <<a, F2Neg(b)>>
                         ELSE IF c = 3 THEN <<b, F2Neg(a)>> ELSE IF c = 4 THEN <<F2One, F2Zero>> ELSE IF c = 5 THEN <<F2Zero, F2One>>
                         ELSE IF c = 6 THEN <<F2One, F2One>> ELSE IF c = 7 THEN <<F2One, F2Neg(F2One)>>
                         ELSE <<RNonZero(s + 1, i), RF2(s + 2, i)>>
Scaled(v, m) == [k \in 1..4 |-> F2Mul(v[k], m)]
\* the translate of a point by a point of order two: coordinates permuted, signs changed
Translate(v, p, q) == [k \in 1..4 |-> LET j == 1 + ((((k - 1) % 2) + (p % 2)) % 2) + 2 * ((((k - 1) \div 2) + (p \div 2)) % 2)
                                          n == ((k - 1) % 2) * (q % 2) + ((k - 1) \div 2) * (q \div 2)
                                      IN IF n % 2 = 1 THEN F2Neg(v[j]) ELSE v[j]]
DblCase(s, i) ==
  LET o1 == RPair(s, i)
      o2 == RPair(s + 10, i)
      u1 == PairPoint(o1, s + 20, i)
      u2 == PairPoint(o2, s + 30, i)
      c == RInt(s + 40, i, 5)
      O == IF c < 3 THEN TensorG(o1, o2) ELSE [k \in 1..4 |-> RNonZero(s + 50, 4 * i + k)]
      P == IF c < 3 THEN TensorG(u1, u2)
           ELSE IF c = 3 THEN Translate(O, RInt(s + 60, i, 4), RInt(s + 61, i, 4)) ELSE [k \in 1..4 |-> RF2(s + 62, 4 * i + k)]
      m1 == RNonZero(s + 70, i)
      m2 == RNonZero(s + 71, i)
  IN IF NullGood(Force(O)) THEN << Ev("th.dbl", <<T4H(Scaled(O, m1)), T4H(Scaled(P, m2)), RPick(s + 80, i, <<0, 1, 2, 3, 7, 20>>),
                                        IF c < 3 THEN <<HHs4(o1), HHs4(u1), HHs4(o2), HHs4(u2)>> ELSE <<>> >>) >> ELSE <<>>
ProdPoint(A, B, s, i) == LET c == RInt(s, i, 6)
                         IN IF c = 0 THEN Inf ELSE IF c = 1 THEN EcMul(A, B[1], Two(BB - 1)) ELSE IF c = 2 THEN EcMul(A, B[2], Two(BB - 2))
                            ELSE IF c = 3 THEN Lin(A, B[1], B[2], RBelow(s + 1, i, Two(BB)), RBelow(s + 2, i, Two(BB)))
                            ELSE RandPoint(A, s + 3, 50 * i)
ProdCase(A1, B1, A2, B2, s, i) ==
  LET P1 == ProdPoint(A1, B1, s, i)
      P2 == ProdPoint(A2, B2, s + 10, i)
      rel(A, B, P, t) == LET c == RInt(t, i, 6) IN IF c = 0 THEN P ELSE IF c = 1 THEN EcNeg(P) ELSE IF c = 2 THEN EcAdd(A, P, EcMul(A, B[1], Two(BB - 1)))
                                                  ELSE IF c = 3 THEN EcDbl(A, P) ELSE ProdPoint(A, B, t + 1, i)
  IN Ev("th.prod", <<HH(A1), HH(A2), <<PH(P1), PH(P2)>>, <<PH(rel(A1, B1, P1, s + 20)), PH(rel(A2, B2, P2, s + 30))>>,
                     RPick(s + 40, i, <<0, 1, 2, 3, 4, 5, 8, BB - 1, BB, BB + 1, 257, 300>>), HH(ZChoice(s, i)), HH(ZChoice(s + 1, i))>>)
DblGroups(z) ==
  LET A(k) == WalkCurve(4000 + k, 4 * k)
      cs == Force([k \in 1..3 |-> A(k)])
      bs == Force([k \in 1..3 |-> TorBasis(cs[k], << <<2, BB>> >>, 4100 + k)])
      pr == [k \in 1..N |-> LET i == 1 + RInt(4200, k, 3)
                               j == 1 + RInt(4201, k, 3)
                           IN ProdCase(cs[i], bs[i], cs[j], bs[j], 4300, k)]
  IN Chunks(Concat([k \in 1..(4 * N) |-> DblCase(4400, k)]) \o pr, 10)
Groups(z) == CASE What = "dbl" -> DblGroups(0) [] What = "theta" -> ThetaGroups(0) [] What = "strat" -> StratGroups(0) [] What = "long" -> LongGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
