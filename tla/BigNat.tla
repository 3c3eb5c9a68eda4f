------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Arbitrary-precision natural numbers for TLC (whose integers are 32-bit) *)
(*                                                                         *)
(* A natural number is the normalised little-endian sequence of its base   *)
(* 2^15 digits: <<>> is zero and the last digit of a non-empty sequence is *)
(* never 0.  Equality of numbers is therefore equality of TLA+ values.     *)
(*                                                                         *)
(* Every operator below is defined in plain TLA+.  For speed TLC replaces  *)
(* the definitions marked (OVR) by Java methods working on BigInteger      *)
(* (tla/java/BigNatOverrides.java) that take and return the same values.   *)
(* BigNatSelf.tla checks the Java methods against the plain definitions,   *)
(* which are repeated there under the prefix P (module BigNatPure).        *)
(***************************************************************************)
EXTENDS BigNatPure

BNat(i)        == PNat(i)            \* (OVR) from a TLC integer
BHex(s)        == PHex(s)            \* (OVR) from a big-endian hex string
BToHex(a)      == PToHex(a)          \* (OVR) canonical hex ("0" for zero)
BLEHex(s)      == PLEHex(s)          \* (OVR) from little-endian bytes in hex text
BToDec(a)      == PToDec(a)          \* (OVR) decimal text
BCmp(a, b)     == PCmp(a, b)         \* (OVR) -1, 0, 1
BAdd(a, b)     == PAdd(a, b)         \* (OVR)
BSub(a, b)     == PSub(a, b)         \* (OVR) a >= b
BMul(a, b)     == PMul(a, b)         \* (OVR)
BDiv(a, b)     == PDivMod(a, b)[1]   \* (OVR)
BMod(a, b)     == PDivMod(a, b)[2]   \* (OVR)
BPow(a, k)     == PPow(a, k)         \* (OVR) k a TLC integer
BBits(a)       == PBits(a)           \* (OVR) bit length
BBit(a, i)     == PBit(a, i)         \* (OVR) i-th bit, 0 or 1
BAddMod(a, b, m) == PAddMod(a, b, m) \* (OVR)
BSubMod(a, b, m) == PSubMod(a, b, m) \* (OVR)
BMulMod(a, b, m) == PMulMod(a, b, m) \* (OVR)
BPowMod(a, e, m) == PPowMod(a, e, m) \* (OVR) e a big natural
BInvMod(a, m)  == PInvMod(a, m)      \* (OVR) inverse; zero if not invertible
BSqrt(a)       == PSqrt(a)           \* (OVR) floor of the square root
BToInt(a)      == PToInt(a)          \* (OVR) a < 2^31
\* Gaussian integers <<re, im>> modulo m
BCAdd(x, y, m) == PCAdd(x, y, m)     \* (OVR)
BCSub(x, y, m) == PCSub(x, y, m)     \* (OVR)
BCMul(x, y, m) == PCMul(x, y, m)     \* (OVR)
BCInv(x, m)    == PCInv(x, m)        \* (OVR) conj(x)/norm(x); 0 if the norm is not invertible
BBitSeq(a)     == PBitSeq(a)         \* (OVR) bits, most significant first

BZero == <<>>
BOne  == <<1>>
BTwo  == <<2>>
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BIsZero(a) == a = <<>>
BIsNat(a) == PIsNat(a)
BShl(a, k) == BMul(a, BPow(BTwo, k))
BShr(a, k) == BDiv(a, BPow(BTwo, k))
BOdd(a) == BBit(a, 0) = 1
=============================================================================
