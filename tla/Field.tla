------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* The prime field Fp, p = PP with p = 3 (mod 4), and its quadratic        *)
(* extension Fp2 = Fp[i], i*i = -1.  Elements of Fp are BigNat values in   *)
(* [0, p); elements of Fp2 are pairs <<re, im>>.                           *)
(***************************************************************************)
EXTENDS Params, Integers, SequencesExt
\* Params (one module per parameter set) defines the modulus PP, a BigNat

FIs(a)     == BIsNat(a) /\ BLt(a, PP)
FRed(a)    == BMod(a, PP)
FZero      == BZero
FOne       == BOne
FAdd(a, b) == BAddMod(a, b, PP)
FSub(a, b) == BSubMod(a, b, PP)
FNeg(a)    == BSubMod(BZero, a, PP)
FMul(a, b) == BMulMod(a, b, PP)
FSqr(a)    == BMulMod(a, a, PP)
FPow(a, e) == BPowMod(a, e, PP)
FInv(a)    == BInvMod(a, PP)          \* inverse of zero is zero
FDiv(a, b) == FMul(a, FInv(b))
FHalf(a)   == IF BOdd(a) THEN BShr(BAdd(a, PP), 1) ELSE BShr(a, 1)
\* a signed machine integer given as <<sign, magnitude>>
FSigned(s) == IF s[1] < 0 THEN FNeg(FRed(s[2])) ELSE FRed(s[2])

PHalf == BShr(PP, 1)                                   \* (p-1)/2
PQuarter == BShr(BAdd(PP, BOne), 2)                    \* (p+1)/4
FLegendre(a) == IF BIsZero(a) THEN 0 ELSE IF FPow(a, PHalf) = BOne THEN 1 ELSE 0-1
FIsSquare(a) == FLegendre(a) >= 0
FEven(a) == ~BOdd(a)
\* the even square root of a square, zero for a non-square (p = 3 mod 4)
FSqrtEven(x) == IF FIsSquare(x) THEN LET s == FPow(x, PQuarter) IN IF FEven(s) THEN s ELSE FNeg(s) ELSE BZero

F2Zero == <<BZero, BZero>>
F2One  == <<BOne, BZero>>
F2I    == <<BZero, BOne>>
F2N(k) == <<FRed(BNat(k)), BZero>>
F2Is(x) == FIs(x[1]) /\ FIs(x[2])
F2Add(x, y) == BCAdd(x, y, PP)
F2Sub(x, y) == BCSub(x, y, PP)
F2Neg(x)    == <<FNeg(x[1]), FNeg(x[2])>>
F2Conj(x)   == <<x[1], FNeg(x[2])>>
F2Mul(x, y) == BCMul(x, y, PP)    \* (a+bi)(c+di) = ac-bd + (ad+bc)i
F2Sqr(x)    == F2Mul(x, x)
F2Norm(x)   == FAdd(FSqr(x[1]), FSqr(x[2]))
F2Scale(k, x) == <<FMul(k, x[1]), FMul(k, x[2])>>
F2Inv(x)    == BCInv(x, PP)       \* conj(x) / norm(x), zero for zero
F2Div(x, y) == F2Mul(x, F2Inv(y))
F2Half(x)   == <<FHalf(x[1]), FHalf(x[2])>>

\* Loops are folds over the bits of the exponent: TLC evaluates them iteratively.
F2PowPlain(x, e) == FoldLeft(LAMBDA acc, b : IF b = 1 THEN F2Mul(F2Sqr(acc), x) ELSE F2Sqr(acc),
                             F2One, BBitSeq(e))
BF2Pow(x, e, m) == F2PowPlain(x, e)        \* (OVR) m = PP
F2Pow(x, e) == BF2Pow(x, e, PP)

\* x in Fp2 is a square iff its norm is a square in Fp
F2Legendre(x) == FLegendre(F2Norm(x))
\* x nonzero is a fourth power iff x^((p^2-1)/4) = 1
F2FourthExp == BShr(BSub(BMul(PP, PP), BOne), 2)
F2IsFourth(x) == x = F2Zero \/ F2Pow(x, F2FourthExp) = F2One
\* a square root of a square of Fp (p = 3 mod 4), of a square of Fp2: with
\* n^2 = norm(x), one of (re(x) +- n)/2 is a square z, and the root is
\* sqrt(z) + i im(x)/(2 sqrt(z)); a real non-square -c has the root i sqrt(c)
FRoot(x) == FPow(x, PQuarter)
F2Root(x) ==
  IF BIsZero(x[2])
  THEN IF FIsSquare(x[1]) THEN <<FRoot(x[1]), BZero>> ELSE <<BZero, FRoot(FNeg(x[1]))>>
  ELSE LET n == FRoot(F2Norm(x))
           z1 == FHalf(FAdd(x[1], n))
           z == IF FIsSquare(z1) THEN z1 ELSE FHalf(FSub(x[1], n))
           s == FRoot(z)
       IN <<s, FDiv(x[2], FAdd(s, s))>>
F2SquareExp == BShr(BSub(BMul(PP, PP), BOne), 1)
F2IsSquareByPower(x) == x = F2Zero \/ F2Pow(x, F2SquareExp) = F2One
=============================================================================
