------------------------------- MODULE GenEc -------------------------------
(* Cases for points, scalar multiplication, validation and lifting         *)
(* (P10, P11, P12).                                                        *)
EXTENDS EcPool
What == EnvOr("GEN", "add")
N == BToInt(BHex(EnvOr("SIZE_HEX", "20")))
Tiny == BBits(PP) < 11
\* the curves of the pool
CurveList(z) ==
  << E0A, WalkCurve(100, 3 + RInt(101, 1, 9)), WalkCurve(102, 12), F2Zero, RandCurve(103), <<RBelow(104, 1, PP), BZero>>,
     <<BZero, RBelow(105, 1, PP)>> >>
Curves(z) == SelectSeq(CurveList(0), CurveOK)

AddCase(A, P, Q, s, i) == Ev("ec.add", <<HH(A), PH(P), PH(Q), ZFor(P, s, 2 * i), ZFor(Q, s, 2 * i + 1)>>)
UnCase(A, P, s, i, k) == Ev("ec.un", <<HH(A), PH(P), ZFor(P, s, i), k>>)
EqCase(P, Q, s, i) == Ev("ec.eq", <<PH(P), PH(Q), ZFor(P, s, 2 * i), ZFor(Q, s, 2 * i + 1)>>)

AddOn(A, pts, others, s) ==
  Concat([k \in 1..Len(pts) |-> [j \in 1..Len(others) |-> AddCase(A, pts[k], others[j], s, k * 128 + j)]])
UnOn(A, pts, s) == [k \in 1..Len(pts) |-> UnCase(A, pts[k], s, k, IF k % 4 = 0 THEN 0 ELSE IF k % 11 = 5 THEN 250 + RInt(s, k, 1800) ELSE RInt(s, k, 40))]
\* equal, opposite, same x, same y (cube roots), different
EqOn(A, pts, s) ==
  Concat([k \in 1..Len(pts) |->
     << EqCase(pts[k], pts[k], s, 8 * k), EqCase(pts[k], EcNeg(pts[k]), s, 8 * k + 1),
        EqCase(pts[k], pts[1 + ((k * 7) % Len(pts))], s, 8 * k + 2), EqCase(pts[k], Inf, s, 8 * k + 3) >>
     \o (IF pts[k] = Inf THEN <<>> ELSE <<EqCase(pts[k], <<F2Add(pts[k][1], F2One), pts[k][2]>>, s, 8 * k + 4),
                                          EqCase(pts[k], <<pts[k][1], F2Add(pts[k][2], F2I)>>, s, 8 * k + 5)>>)])

AddGroups(z) ==
  IF Tiny
  THEN LET cs == <<E0A>> \o (IF BToInt(PP) = 7 THEN <<<<BOne, BOne>>, <<BNat(3), BZero>>, F2Zero>> ELSE <<WalkCurve(100, 2)>>)
           cv == SelectSeq(cs, CurveOK)
       IN Concat([c \in 1..Len(cv) |->
             LET A == cv[c]
                 pts == AllPoints(A)
                 some == IF Len(pts) <= 70 THEN pts ELSE SpecialPoints(A, 200 + c) \o Sub(pts, 201 + c, N)
             IN Chunks(AddOn(A, pts, some, 210 + c), 400) \o Chunks(UnOn(A, pts, 220 + c) \o EqOn(A, some, 230 + c), 400)])
  ELSE LET cv == Curves(0)
       IN Concat([c \in 1..Len(cv) |->
             LET A == cv[c]
                 pts == SpecialPoints(A, 300 + 10 * c)
                 sub == IF c <= 2 THEN pts ELSE Sub(pts, 301 + 10 * c, N)
             IN Chunks(AddOn(A, pts, sub, 310 + c), 60)
                \o Chunks(UnOn(A, pts, 320 + c) \o EqOn(A, pts, 330 + c), 60)])

\* ---------------------------------------------------------------- scalars
Near(n) == <<n, BAdd(n, BOne), BAdd(n, BTwo)>> \o (IF BLe(BTwo, n) THEN <<BSub(n, BOne), BSub(n, BTwo)>> ELSE <<>>)
ScalarList(s, n) ==
  [k \in 1..12 |-> BNat(k - 1)]
  \o <<BNat(63), BNat(64), BNat(255), BNat(256), BNat(257), BSub(Two(20), BOne), Two(20), BSub(Two(21), BOne), Two(21), BAdd(Two(21), BOne),
       BSub(Two(22), BOne), Two(22), BSub(Two(32), BOne), Two(32), BSub(Two(63), BOne), Two(63), BSub(Two(64), BOne), Two(64), BAdd(Two(64), BOne)>>
  \o Near(PPlus1) \o Near(BShl(PPlus1, 1)) \o Near(BShr(PPlus1, 1)) \o Near(BShr(PPlus1, 2)) \o Near(BMul(PPlus1, PPlus1))
  \o [k \in 1..n |-> RBits(s, k, 1 + RInt(s + 1, k, 1400))]
  \o [k \in 1..n |-> RBits(s + 2, k, 1 + RInt(s + 3, k, 70))]
  \o [k \in 1..n |-> Pat(s + 40, k, Two(1 + RInt(s + 60, k, 1400)))]
  \o [k \in 1..n |-> Pat(s + 80, k, PPlus1)]
\* bytes with arbitrary bits above the declared length
MulBytes(A, P, n, s, i) ==
  LET b == BBits(n)
      ext == RInt(s, i, 4)
      nbl == b + (IF ext = 0 THEN 0 ELSE IF ext = 1 THEN RInt(s + 1, i, 30) ELSE IF ext = 2 THEN 1 ELSE 0)
      len == IF nbl = 0 THEN 1 ELSE (nbl + 7) \div 8 + RInt(s + 2, i, 3)
      garb == BShl(RBits(s + 3, i, 8 * len + 1), nbl)
      v == BMod(BAdd(n, garb), BPow(BTwo, 8 * len))
  IN Ev("ec.mul", <<HH(A), PH(P), ZFor(P, s + 4, i), LEBytes(v, len), nbl>>)
\* the declared length cuts the integer
MulCut(A, P, n, nbl, s, i) ==
  Ev("ec.mul", <<HH(A), PH(P), ZFor(P, s + 4, i), LEBytes(n, (BBits(n) + 7) \div 8), nbl>>)
MulBig(A, P, n, s, i) == Ev("ec.mulbig", <<HH(A), PH(P), ZFor(P, s, i), H(n)>>)
SmallOrderPoints(A, s) ==
  LET R == RandPoint(A, s, 1)
      ds == SelectSeq([k \in 1..16 |-> k], LAMBDA k : BIsZero(BMod(PPlus1, BNat(k))))
  IN [k \in 1..Len(ds) |-> EcMul(A, RandPoint(A, s + k, 1), BDiv(PPlus1, BNat(ds[k])))]

MulGroups(z) ==
  IF Tiny
  THEN LET cv == <<E0A, WalkCurve(100, 2)>>
           top == 2 * BToInt(PP) + 4
       IN Concat([c \in 1..Len(cv) |->
             LET A == cv[c]
                 all == AllPoints(A)
                 pts == Sub(all, 401 + c, N)
             IN Chunks(Concat([k \in 1..Len(pts) |-> [n \in 1..top |-> MulBig(A, pts[k], BNat(n - 1), 402, k * 500 + n)]]), 500)
                \o Chunks(Concat([k \in 1..Len(pts) |-> [n \in 1..20 |-> MulBytes(A, pts[k], BNat(IF n < 6 THEN n - 1 ELSE RInt(403, k * 500 + n, top)), 404, k * 500 + n)]]), 500)])
  ELSE LET cv == SubSeq(Curves(0), 1, 3)
           sc == ScalarList(410, N)
       IN Concat([c \in 1..Len(cv) |->
             LET A == cv[c]
                 sp == <<Inf>> \o TwoTorsion(A) \o FourTorsion(A) \o SmallOrderPoints(A, 420 + 20 * c)
                 R == RandPoint(A, 411 + c, 1)
                 Q == EcAdd(A, R, TwoTorsion(A)[1])
                 pts == sp \o <<R>>
                 few == Sub(sc, 412 + c, 12 + N)
             IN Chunks([n \in 1..Len(sc) |-> MulBig(A, R, sc[n], 413, c * 1000 + n)], 8)
                \o Chunks([n \in 1..Len(few) |-> MulBytes(A, Q, few[n], 414, c * 1000 + n)], 8)
                \o Chunks(Concat([k \in 1..Len(sp) |-> [n \in 1..Len(few) |-> MulBig(A, sp[k], few[n], 415, c * 10000 + 100 * k + n)]]), 40)
                \o Chunks(Concat([k \in 1..Len(sp) |-> [n \in 1..36 |-> MulBig(A, sp[k], BNat(n - 1), 415, c * 10000 + 100 * k + n)]]), 60)
                \o Chunks(Concat([k \in 1..Len(pts) |-> [n \in 1..10 |-> MulBytes(A, pts[k], BNat(n - 1), 416, c * 10000 + 100 * k + n)]]), 60)
                \o Chunks(Concat([k \in 1..Len(pts) |-> [n \in 1..8 |-> MulCut(A, pts[k], RBits(417, k * 50 + n, 70), RInt(418, k * 50 + n, IF n < 4 THEN 3 ELSE 69), 419, c * 10000 + 100 * k + n)]]), 60)])

\* ------------------------------------------------- validation and lifting
ValidCase(A, x, y, z) == Ev("ec.valid", <<HH(A), HH(x), HH(y), HH(z)>>)
ValidOn(A, s, n) ==
  LET pts == SelectSeq(SpecialPoints(A, s), LAMBDA P : P # Inf)
  IN Concat([k \in 1..Len(pts) |->
       LET x == pts[k][1]
           y == pts[k][2]
           z == ZChoice(s + 1, k)
       IN << ValidCase(A, x, y, z), ValidCase(A, x, F2Neg(y), F2One), ValidCase(A, x, F2Add(y, F2One), z), ValidCase(A, x, F2Conj(y), z),
             ValidCase(A, F2Add(x, F2I), y, z), ValidCase(A, y, x, z), ValidCase(A, x, y, F2Zero), ValidCase(A, F2Conj(x), y, z),
             ValidCase(A, F2Neg(x), F2Mul(F2I, y), z), ValidCase(A, F2Mul(x, F2N(4)), F2Mul(y, F2N(8)), z) >>])
     \o [k \in 1..n |-> ValidCase(A, RF2(s + 2, k), RF2(s + 3, k), ZInfChoice(s + 4, k))]
     \o << ValidCase(A, F2Zero, F2Zero, F2Zero), ValidCase(A, F2Zero, F2One, F2Zero), ValidCase(A, F2One, F2Zero, F2One) >>
LiftCase(A, x, z) == Ev("ec.lift", <<HH(A), HH(F2Mul(x, z)), HH(z)>>)
LiftOn(A, s, n) ==
  LET pts == SelectSeq(SpecialPoints(A, s), LAMBDA P : P # Inf)
  IN [k \in 1..Len(pts) |-> LiftCase(A, pts[k][1], ZChoice(s + 1, k))]
     \o [k \in 1..n |-> LiftCase(A, RF2(s + 2, k), ZChoice(s + 3, k))]
     \o [k \in 1..n |-> LiftCase(A, <<RBelow(s + 4, k, PP), BZero>>, ZChoice(s + 5, k))]
     \o [k \in 1..n |-> LiftCase(A, <<BZero, RBelow(s + 6, k, PP)>>, ZChoice(s + 7, k))]
     \o [k \in 1..3 |-> Ev("ec.lift", <<HH(A), HH(RF2(s + 8, k)), HH(F2Zero)>>)]
     \o << Ev("ec.lift", <<HH(A), HH(F2Zero), HH(F2Zero)>>), Ev("ec.lift", <<HH(A), HH(F2Zero), HH(F2One)>>) >>
ValidGroups(z) ==
  LET cv == Curves(0)
      sing == <<F2N(2), F2Neg(F2N(2))>>
      cc == [k \in 1..Len(cv) |-> Ev("ec.curve", <<HH(cv[k])>>)] \o [k \in 1..2 |-> Ev("ec.curve", <<HH(sing[k])>>)]
            \o [k \in 1..N |-> Ev("ec.curve", <<HH(RF2(500, k))>>)] \o [k \in 1..12 |-> Ev("ec.curve", <<HH(F2Add(F2N(2), <<BZero, FRed(BNat(k - 1))>>))>>)]
            \o [k \in 1..8 |-> Ev("ec.curve", <<HH(F2N(k + 2))>>)]
  IN Chunks(cc, 10)
     \o Concat([c \in 1..Len(cv) |->
          LET A == cv[c]
          IN IF Tiny
             THEN LET xs == AllX(0)
                  IN Chunks([k \in 1..Len(xs) |-> LiftCase(A, xs[k], F2One)], 200)
                     \o Chunks([k \in 1..Len(xs) |-> LiftCase(A, xs[k], ZChoice(501, k))], 200)
                     \o Chunks(ValidOn(A, 510 + 20 * c, N), 100)
                     \o Chunks(Concat([k \in 1..Len(xs) |-> << ValidCase(A, xs[k], xs[1 + ((k * 5) % Len(xs))], F2One), ValidCase(A, xs[k], xs[1 + ((k * 11) % Len(xs))], F2I) >>]), 200)
             ELSE Chunks(ValidOn(A, 510 + 20 * c, N), 40) \o Chunks(LiftOn(A, 600 + 20 * c, N), 40)
                  \o << <<Ev("ec.iter", <<HH(A), 2 * N>>)>>, <<Ev("ec.rand", <<HH(A), RInt(505, c, 100000), 40>>)>> >>])

Groups(z) == CASE What = "add" -> AddGroups(0) [] What = "mul" -> MulGroups(0) [] What = "valid" -> ValidGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
