-------------------------------- MODULE Prng --------------------------------
(***************************************************************************)
(* Reproducible pseudo-random values for the generators: powers modulo     *)
(* the Mersenne primes 2^2203-1 and 2^521-1 of multiples of a constant by  *)
(* a number derived from the seed (environment variable VERIF_SEED and ROUND), a    *)
(* stream name (a number) and an index.                                    *)
(***************************************************************************)
EXTENDS BigNat, Integers, Sequences, SequencesExt, TLC, IOUtils

EnvOr(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
Seed == BAdd(BMul(BHex(EnvOr("VERIF_SEED_HEX", "1")), BNat(1009)), BHex(EnvOr("ROUND_HEX", "0")))
MBig == BSub(BPow(BTwo, 2203), BOne)
MSmall == BSub(BPow(BTwo, 521), BOne)
SeedMul == BMul(BAdd(Seed, BNat(17)), BPow(BNat(1000003), 3))
RExp(s, i) == BAdd(SeedMul, BAdd(BMul(BNat(s), BPow(BNat(999983), 2)), BMul(BNat(i + 1), BNat(7919))))
KBig == BPowMod(BNat(7), BPow(BTwo, 800), MBig)
KSmall == BPowMod(BNat(7), BPow(BTwo, 200), MSmall)
F4 == BNat(65537)
RBits(s, i, k) == BMod(BShr(BPowMod(BMulMod(RExp(s, i), KBig, MBig), F4, MBig), 60), BPow(BTwo, k))
RSmall(s, i) == BShr(BPowMod(BMulMod(RExp(s, i), KSmall, MSmall), BNat(257), MSmall), 60)
RInt(s, i, n) == BToInt(BMod(RSmall(s, i), BNat(n)))          \* in 0..n-1
RBelow(s, i, b) == BMod(BAdd(BMul(RBits(s, i, 1100), BPow(BTwo, 1100)), RBits(s, i + 500009, 1100)), b)
\* integers with structure in their binary digits, below the bound b > 0: powers of two and their neighbours,
\* zero and all-one bytes or words anywhere, few bits, a value in a high digit only, values next to the bound
PatBits(s, i, k) ==
  LET c == RInt(s, i, 8)
      w == <<8, 16, 32, 64>>[1 + RInt(s + 1, i, 4)]
      j == IF RInt(s + 2, i, 2) = 0 THEN RInt(s + 3, i, k) ELSE ((RInt(s + 3, i, k) \div w) * w)
      nd == (k + w - 1) \div w
      digit(d, q) == LET r == RInt(s + 4, 1000 * i + d, q) IN IF r = 0 THEN RBits(s + 5, 1000 * i + d, w) ELSE IF c = 3 THEN BSub(BPow(BTwo, w), BOne) ELSE BZero
      digits(q) == FoldLeft(LAMBDA acc, d : BAdd(BMul(acc, BPow(BTwo, w)), digit(d, q)), BZero, [d \in 1..nd |-> d])
  IN CASE c = 0 -> BPow(BTwo, j)
       [] c = 1 -> BSub(BPow(BTwo, j), BOne)
       [] c = 2 -> BAdd(BPow(BTwo, j), BNat(1 + 2 * RInt(s + 6, i, 20)))
       [] c = 3 -> digits(3)
       [] c = 4 -> digits(2)
       [] c = 5 -> digits(5)
       [] c = 6 -> BAdd(BMul(BPow(BTwo, (j \div w) * w), RBits(s + 7, i, w)), BNat(RInt(s + 8, i, 2)))
       [] OTHER -> BSub(BPow(BTwo, k), BAdd(BPow(BTwo, j), BOne))
Pat(s, i, b) ==
  LET k == BBits(b)
      x == PatBits(s, i, 1 + (IF RInt(s + 9, i, 3) = 0 THEN RInt(s + 10, i, k) ELSE k - 1))
  IN IF RInt(s + 11, i, 9) = 0 THEN BMod(BSub(BMul(b, BPow(BTwo, 70)), x), b) ELSE BMod(x, b)
\* below b, in digits of w bits: some inner digits zero or all ones, the lowest and the highest not zero
PatDigits(s, i, b, w) ==
  LET k == BBits(b) - 1
      nd == k \div w
      dig(d) == LET r == RInt(s, 1000 * i + d, 4)
                IN IF d = 1 \/ d = nd \/ r = 3 THEN BAdd(BOne, RBelow(s + 1, 1000 * i + d, BSub(BPow(BTwo, w), BOne)))
                   ELSE IF r = 2 THEN BSub(BPow(BTwo, w), BOne) ELSE BZero
  IN IF nd < 3 THEN BMod(Pat(s, i, b), b) ELSE FoldLeft(LAMBDA acc, d : BAdd(BMul(acc, BPow(BTwo, w)), dig(d)), BZero, [d \in 1..nd |-> d])
RPick(s, i, seq) == seq[1 + RInt(s, i, Len(seq))]
=============================================================================
