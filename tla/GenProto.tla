------------------------------ MODULE GenProto -------------------------------
(* Cases for the protocol: keys, messages, serialisation, constants.       *)
EXTENDS EcPool
What == EnvOr("GEN", "params")
N == BToInt(BHex(EnvOr("SIZE_HEX", "20")))
Mask == BPow(BTwo, BB)
HalfMask == BPow(BTwo, BB - 1)
Inv2(b) == BInvMod(b, Mask)
Dq1(z) == FProd(D1F)
Dq2(z) == FProd(D2F)

OddBelowHalf(x) == LET y == BMod(x, HalfMask) IN IF BOdd(y) THEN y ELSE BAdd(y, BOne)
Msg(s1, s2, b) == <<H(s1), H(s2), H(b), H(Inv2(b))>>
\* boundary scalars for the bound D = FProd(f)
EdgeS(f) == LET D == FProd(f)
            IN SelectSeq(<<BZero, BOne, BSub(D, BOne), BTwo, BDiv(D, BTwo)>>
               \o [k \in 1..Len(f) |-> BNat(f[k][1])] \o [k \in 1..Len(f) |-> BDiv(D, BNat(f[k][1]))]
               \o [k \in 1..Len(f) |-> BDiv(D, BPow(BNat(f[k][1]), f[k][2]))] \o [k \in 1..Len(f) |-> BSub(D, BNat(f[k][1]))]
               \o [k \in 1..Len(f) |-> BPow(BNat(f[k][1]), f[k][2])], LAMBDA x : BLt(x, D))
EdgeB(z) == <<BOne, BNat(3), BSub(HalfMask, BOne), BSub(HalfMask, BNat(3)), BAdd(BPow(BTwo, BB - 2), BOne), BSub(BPow(BTwo, BB - 2), BOne),
              OddBelowHalf(Inv2(BNat(3))), OddBelowHalf(BSub(Mask, Inv2(BNat(3)))), BAdd(BPow(BTwo, BB \div 2), BOne), BSub(BPow(BTwo, BB \div 2), BOne)>>
REdge(s, i, f) == RPick(s, i, EdgeS(f))
RandMsg(s, i) ==
  LET c == RInt(s, i, 6)
      s1 == IF c \in {0, 1} THEN REdge(s + 1, i, D1F) ELSE Special(s + 1000, i, D1F)
      s2 == IF c \in {0, 2} THEN REdge(s + 3, i, D2F) ELSE Special(s + 2000, i, D2F)
      b == IF c \in {0, 3} THEN RPick(s + 5, i, EdgeB(0)) ELSE OddBelowHalf(IF c = 1 THEN RBelow(s + 6, i, Mask) ELSE Pat(s + 7, i, Mask))
  IN Msg(s1, s2, b)
\* the same message with the other representative of its mask
Other(m) == <<m[1], m[2], H(BSub(Mask, BHex(m[3]))), H(BSub(Mask, BHex(m[4])))>>
\* any diagonal mask
AnyMask(m, s, i) == LET c == RInt(s, i, 4)
                        odd(x) == IF BOdd(x) THEN x ELSE BAdd(x, BOne)
                    IN CASE c = 0 -> Other(m) [] c = 1 -> <<m[1], m[2], m[3], H(BSub(Mask, BHex(m[4])))>>
                         [] c = 2 -> <<m[1], m[2], H(odd(RBelow(s + 1, i, Mask))), H(odd(RBelow(s + 2, i, Mask)))>>
                         [] OTHER -> <<m[1], m[2], H(odd(Pat(s + 1, i, Mask))), H(odd(Pat(s + 2, i, Mask)))>>
\* scalars with holes in their digits
DigitMsg(s, k) == LET w == <<32, 64, 8, 16>>
                      w1 == w[1 + (k % 4)]
                      w2 == w[1 + ((k + 1) % 4)]
                  IN Msg(PatDigits(s, k, Dq1(0), w1), PatDigits(s + 1, k, Dq2(0), w2), OddBelowHalf(PatDigits(s + 2, k, HalfMask, w2)))
\* masks of every length
ShortOdd(s, i) == LET x == RBelow(s, i, BPow(BTwo, 1 + RInt(s + 1, i, BB - 1))) IN IF BOdd(x) THEN x ELSE BAdd(x, BOne)
ShortMsg(s, i) == Msg(Special(s + 1000, i, D1F), Special(s + 2000, i, D2F), OddBelowHalf(ShortOdd(s, i)))
\* every boundary value once
EdgeMsgs(s) ==
  LET e1 == Force(EdgeS(D1F))
      e2 == Force(EdgeS(D2F))
      eb == Force(EdgeB(0))
      R1(i) == RBelow(s, i, Dq1(0))
      R2(i) == RBelow(s + 1, i, Dq2(0))
      RB(i) == OddBelowHalf(RBelow(s + 2, i, Mask))
  IN Force([k \in 1..Len(e1) |-> Msg(e1[k], R2(k), RB(k))]) \o Force([k \in 1..Len(e2) |-> Msg(R1(100 + k), e2[k], RB(100 + k))])
     \o Force([k \in 1..Len(eb) |-> Msg(R1(200 + k), R2(200 + k), eb[k])])
     \o <<Msg(BZero, BZero, BOne), Msg(BSub(Dq1(0), BOne), BSub(Dq2(0), BOne), BSub(HalfMask, BOne)), Msg(BZero, BSub(Dq2(0), BOne), BSub(HalfMask, BOne)), Msg(BSub(Dq1(0), BOne), BZero, BOne)>>
EdgeMasks(z) == <<BOne, BSub(Mask, BOne), BNat(3), BAdd(HalfMask, BOne), BSub(HalfMask, BOne), BSub(Mask, BNat(3)), BAdd(BPow(BTwo, BB \div 2), BOne)>>
RMask(s, i) == LET x == Pat(s, i, Mask) IN IF BOdd(x) THEN x ELSE BAdd(x, BOne)
\* masks of a key: mostly what the system generates
KeyMasks(s, k) == IF k % 2 = 1 THEN <<>>
                  ELSE IF k % 4 = 2 THEN <<H(RMask(s + 2, k)), H(RMask(s + 3, k))>>
                  ELSE LET a == RPick(s, k, EdgeMasks(0))
                           b == RPick(s + 1, k, EdgeMasks(0))
                       IN <<H(a), H(b)>>
Key(s, k) == Ev("pr.keygen", <<KeyMasks(s, k)>>)
Eval(m) == Ev("pr.eval", <<m>>)
Round(ms) == Ev("pr.roundtrip", <<ms>>)

\* P02: keys alone
KeyGroups(z) == [k \in 1..N |-> <<Key(4000, k)>>]
\* P03: a key, then evaluations
EvalGroups(z) == LET per == IF BBits(PP) > 200 THEN 2 ELSE 8
                     em == Force(EdgeMsgs(4100))
                 IN [k \in 1..N |-> <<Ev("pr.keygen", <<KeyMasks(4110, k)>>)>> \o
                        [j \in 1..per |-> Eval(IF BBits(PP) > 200 /\ k % 3 = 0 /\ j = 1 THEN AnyMask(em[1 + (k * 11 % Len(em))], 4170, k)
                                                ELSE IF BBits(PP) < 200 /\ j % 4 = 3 THEN AnyMask(RandMsg(4120 + 10 * k, j), 4175, 10 * k + j) ELSE IF BBits(PP) > 200 /\ (j + k) % 2 = 0 THEN DigitMsg(4180, k) ELSE IF k % 2 = 0 \/ j % 2 = 0 THEN em[1 + ((k * per + j) * 7 % Len(em))] ELSE RandMsg(4120 + 10 * k, j))]]
\* P01: keys and many messages
RoundGroups(z) == LET per == IF BBits(PP) > 200 THEN 2 ELSE 40
                      em == Force(EdgeMsgs(4200))
                  IN [k \in 1..N |-> <<Ev("pr.keygen", <<KeyMasks(4210, k)>>)>> \o
                        (IF BBits(PP) > 200 THEN <<Round(<<em[1 + ((k * 11) % Len(em))], LET m == ShortMsg(4230, k) IN IF k % 2 = 0 THEN Other(m) ELSE m, RandMsg(4220 + 10 * k, 1)>>)>>
                         ELSE <<Round(em), Round([j \in 1..per |-> LET m == RandMsg(4220 + 10 * k, j) IN IF j % 5 = 4 THEN Other(m) ELSE m])>>)]
\* all scalars, with fixed others, and many masks
SweepGroups(z) ==
  LET d1 == BToInt(Dq1(0))
      d2 == BToInt(Dq2(0))
      ones == [k \in 1..d1 |-> Msg(BNat(k - 1), RBelow(4301, k, Dq2(0)), OddBelowHalf(RBelow(4302, k, Mask)))]
      twos == [k \in 1..d2 |-> Msg(RBelow(4303, k, Dq1(0)), BNat(k - 1), OddBelowHalf(RBelow(4304, k, Mask)))]
      low == [k \in 1..100 |-> Msg(RBelow(4305, k, Dq1(0)), RBelow(4306, k, Dq2(0)), BNat(2 * k - 1))]
      high == [k \in 1..100 |-> Msg(RBelow(4307, k, Dq1(0)), RBelow(4308, k, Dq2(0)), BSub(HalfMask, BNat(2 * k - 1)))]
  IN Concat([k \in 1..N |-> [j \in 1..4 |-> <<Key(4310, k * 4 + j), Round(IF j = 1 THEN ones ELSE IF j = 2 THEN twos ELSE IF j = 3 THEN low ELSE high)>>]])

\* recovering the mask from a scaled point
\* as many full digits as there are, and the negatives
FullDigits(z) == LET w == 64
                     n == (BB - 1) \div w
                     one(d) == LET x == BSub(BPow(BTwo, w * d), BAdd(RBelow(4408, d, BPow(BTwo, w * d - 3)), BOne)) IN IF BOdd(x) THEN x ELSE BSub(x, BOne)
                 IN Concat([d \in 1..n |-> <<one(d), BSub(Mask, one(d))>>])
DiagGroups(z) ==
  LET A == WalkCurve(4400, 9)
      B == TorBasis(A, << <<2, BB>> >>, 4401)
      c == BMod(BMul(BMul(BMul(FProd(D1F), FProd(D1F)), FProd(D2F)), M1V), Mask)
      als == <<BOne, BSub(HalfMask, BOne), BAdd(HalfMask, BOne), BSub(Mask, BOne), BNat(3), BSub(Mask, BNat(3)), BAdd(BPow(BTwo, BB - 2), BOne), BAdd(HalfMask, BNat(3)), BSub(HalfMask, BNat(3)),
               BAdd(HalfMask, BAdd(BPow(BTwo, BB - 2), BOne))>>
             \o [k \in 1..N |-> LET x == RBelow(4402, k, Mask) IN IF BOdd(x) THEN x ELSE BAdd(x, BOne)] \o [k \in 1..N |-> RMask(4403, k)]
             \o [k \in 1..N |-> ShortOdd(4404, k)] \o [k \in 1..N |-> BSub(Mask, ShortOdd(4406, k))]
             \o FullDigits(0)
  IN Chunks(Force([k \in 1..Len(als) |-> LET e == BMulMod(c, als[k], Mask) IN Ev("pr.diag", <<HH(A), PH(EcMul(A, B[1], e)), PH(B[1]), PH(B[2]), H(e)>>)]), 2)

\* serialisation: arbitrary values, extreme ones in every place
EdgeFp(z) == <<BZero, BOne, BSub(PP, BOne), BTwo, BSub(PP, BTwo), BPow(BTwo, 8 * ((BBits(PP) - 1) \div 8)), BSub(BPow(BTwo, BBits(PP) - 1), BOne), BDiv(PP, BTwo), BNat(255), BNat(256)>>
AnyFp(s, i) == IF RInt(s, i, 2) = 0 THEN RPick(s + 1, i, EdgeFp(0)) ELSE RBelow(s + 2, i, PP)
AnyF2(s, i) == LET x == <<AnyFp(s, 2 * i), AnyFp(s, 2 * i + 1)>> IN HH(x)
\* a curve coefficient other than 2 and -2
AnyA(s, i) == LET x == <<AnyFp(s, 2 * i), AnyFp(s, 2 * i + 1)>> IN HH(IF CurveOK(x) THEN x ELSE E0A)
AnyPt(s, i) == <<AnyF2(s, 2 * i), AnyF2(s + 5, 2 * i + 1)>>
IntOf(s, i, bytes) == IF bytes = 0 THEN BZero
                      ELSE LET lo == BPow(BTwo, 8 * (bytes - 1))
                               c == RInt(s, i, 5)
                           IN IF c = 4 THEN BAdd(lo, Pat(s + 3, i, lo)) ELSE IF c = 0 THEN lo ELSE IF c = 1 THEN BSub(BMul(lo, BNat(256)), BOne)
                              ELSE IF c = 2 THEN BAdd(lo, RBelow(s + 1, i, BMul(lo, BNat(255)))) ELSE BAdd(BMul(lo, BNat(1 + RInt(s + 2, i, 255))), BZero)
CodecGroups(z) ==
  LET sk(i, l1, l2) == Ev("pr.sk", <<AnyA(4500, i), <<AnyPt(4510, i), AnyPt(4520, i)>>, <<AnyPt(4530, i), AnyPt(4540, i)>>, H(IntOf(4550, i, l1)), H(IntOf(4560, i, l2))>>)
      out(i) == Ev("pr.out", <<AnyA(4600, i), AnyPt(4610, i), AnyPt(4620, i), AnyA(4630, i), AnyPt(4640, i), AnyPt(4650, i)>>)
      sks == [i \in 1..(83 * N) |-> sk(i, (i - 1) % 83, ((i - 1) * 5 + ((i - 1) \div 83)) % 83)]
      outs == [i \in 1..(60 * N) |-> out(i)]
  IN Chunks(Force(sks \o outs), 8)
Groups(z) == CASE What = "params" -> << <<Ev("pr.params", <<>>)>> >>
               [] What = "keys" -> KeyGroups(0) [] What = "eval" -> EvalGroups(0) [] What = "round" -> RoundGroups(0)
               [] What = "sweep" -> SweepGroups(0) [] What = "diag" -> DiagGroups(0) [] What = "codec" -> CodecGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
