-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Operand classes of the base field.  The implementation keeps x as the   *)
(* Limbs 64-bit digits of x*R mod p with R = 2^(64*Limbs), so every        *)
(* structured integer v appears twice: as the value v and as the value     *)
(* v/R, whose internal digits are those of v.                              *)
(***************************************************************************)
EXTENDS Field, Prng

Limbs == (BBits(PP) + 63) \div 64
RInvModP == BInvMod(BMod(BPow(BTwo, 64 * Limbs), PP), PP)
Two(k) == BPow(BTwo, k)
Red(v) == BMod(v, PP)
Inner(v) == FMul(v, RInvModP)               \* element whose internal digits are those of v

W64 == Two(64)
LimbChoices == << BZero, BOne, BTwo, BSub(W64, BOne), BSub(W64, BTwo), Two(63), BSub(Two(63), BOne),
                  Two(32), BSub(Two(32), BOne), BSub(W64, Two(32)), BAdd(Two(63), BOne), BNat(3),
                  Two(62), BSub(W64, Two(31)) >>
\* one limb: structured three times out of four
RLimb(s, i) == LET c == RInt(s, i, 20)
               IN IF c < Len(LimbChoices) THEN LimbChoices[c + 1] ELSE RBits(s, i + 31, 64)
Soup(s) == FoldLeft(LAMBDA acc, k : BAdd(BMul(acc, W64), RLimb(s, k)), BZero, [k \in 1..Limbs |-> k])
\* a run of equal limbs, then another run: long carries and borrows
Runs(s) == LET a == RPick(s, 1, LimbChoices)
               b == RPick(s, 2, LimbChoices)
               k == 1 + RInt(s, 3, Limbs)
           IN FoldLeft(LAMBDA acc, j : BAdd(BMul(acc, W64), IF j <= k THEN a ELSE b), BZero,
                       [j \in 1..Limbs |-> j])

Small == [k \in 1..24 |-> BNat(k - 1)]
NearP == [k \in 1..24 |-> BSub(PP, BNat(k))]
Halves == LET h == PHalf
          IN << h, BAdd(h, BOne), BAdd(h, BTwo), BSub(h, BOne), BSub(h, BTwo), PQuarter, BSub(PQuarter, BOne),
                BAdd(PQuarter, BOne), BShr(PP, 3), BAdd(BShr(PP, 3), BOne), BDiv(PP, BNat(3)), BAdd(BDiv(PP, BNat(3)), BOne),
                BDiv(BMul(PP, BTwo), BNat(3)), BAdd(BDiv(BMul(PP, BTwo), BNat(3)), BOne), BSqrt(PP), BAdd(BSqrt(PP), BOne),
                BSub(PP, BSqrt(PP)) >>
Powers == LET exps == SelectSeq([k \in 1..(64 * Limbs) |-> k],
                  LAMBDA k : k < BBits(PP) /\ (k % 64 \in {0, 1, 63} \/ k % 31 = 0 \/ k % 62 = 0))
          IN [k \in 1..Len(exps) |-> exps[k]]
PowVals == [k \in 1..Len(Powers) |-> Two(Powers[k])]
PowM1 == [k \in 1..Len(Powers) |-> BSub(Two(Powers[k]), BOne)]
PowP1 == [k \in 1..Len(Powers) |-> BAdd(Two(Powers[k]), BOne)]
PowNeg == [k \in 1..Len(Powers) |-> BSub(PP, Two(Powers[k]))]
\* all the multiples of R near 0, R mod p itself, and values next to it
RVals == LET r == BMod(BPow(BTwo, 64 * Limbs), PP)
         IN << r, Red(BMul(r, BTwo)), Red(BMul(r, BNat(3))), Red(BMul(r, r)), FNeg(r), RInvModP, FNeg(RInvModP), FHalf(r) >>
Inverses == [k \in 1..12 |-> FInv(BNat(k + 1))]

Both(seq) == seq \o [k \in 1..Len(seq) |-> Inner(seq[k])]
Structured == Both(Small \o NearP \o Halves) \o RVals \o Inverses
PowerLike == Both([k \in 1..Len(PowVals) |-> Red(PowVals[k])] \o [k \in 1..Len(PowM1) |-> Red(PowM1[k])]
                  \o [k \in 1..Len(PowP1) |-> Red(PowP1[k])] \o PowNeg)
SoupVals(s, n) == [k \in 1..n |-> LET v == Red(IF k % 4 = 0 THEN Runs(s + 977 * k) ELSE Soup(s + 977 * k))
                                  IN IF k % 3 = 0 THEN v ELSE Inner(v)]
RandVals(s, n) == [k \in 1..n |-> RBelow(s, k, PP)]

Sub(seq, s, n) == IF Len(seq) <= n THEN seq ELSE [k \in 1..n |-> RPick(s, k, seq)]
\* mixed pool of about n values
PoolOf(s, n) == Sub(Structured, s, n \div 3) \o Sub(PowerLike, s + 1, n \div 4)
                \o SoupVals(s + 2, n \div 3) \o RandVals(s + 3, n \div 12)
H(v) == BToHex(v)
Hs(seq) == [k \in 1..Len(seq) |-> BToHex(seq[k])]
HSigned(sgn, mag) == <<sgn, BToHex(mag)>>
=============================================================================
