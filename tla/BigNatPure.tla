----------------------------- MODULE BigNatPure -----------------------------
(* Plain TLA+ definitions of arbitrary-precision naturals; see BigNat.     *)
EXTENDS Naturals, Sequences

PBase == 32768

PIsNat(a) == /\ a \in Seq(0..(PBase-1))
             /\ a # <<>> => a[Len(a)] # 0

RECURSIVE PNorm(_)
PNorm(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN PNorm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE PNat(_)
PNat(i) == IF i = 0 THEN <<>> ELSE <<i % PBase>> \o PNat(i \div PBase)

PDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

PMax(x, y) == IF x > y THEN x ELSE y

RECURSIVE PToInt(_)
PToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + PBase * PToInt(Tail(a))

RECURSIVE PCmpAt(_, _, _)
PCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN 0-1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE PCmpAt(a, b, i-1)
PCmp(a, b) == IF Len(a) < Len(b) THEN 0-1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE PCmpAt(a, b, Len(a))

RECURSIVE PAddC(_, _, _, _, _)
PAddC(a, b, i, n, c) ==
   IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET s == PDigit(a, i) + PDigit(b, i) + c
        IN <<s % PBase>> \o PAddC(a, b, i+1, n, s \div PBase)
PAdd(a, b) == PAddC(a, b, 1, PMax(Len(a), Len(b)), 0)

RECURSIVE PSubC(_, _, _, _, _)
PSubC(a, b, i, n, c) ==
   IF i > n THEN <<>>
   ELSE LET s == PBase + PDigit(a, i) - PDigit(b, i) - c
        IN <<s % PBase>> \o PSubC(a, b, i+1, n, 1 - (s \div PBase))
PSub(a, b) == PNorm(PSubC(a, b, 1, Len(a), 0))

RECURSIVE PMulD(_, _, _, _)     \* a times one digit
PMulD(a, d, i, c) ==
   IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET s == a[i] * d + c
        IN <<s % PBase>> \o PMulD(a, d, i+1, s \div PBase)
RECURSIVE PMul(_, _)
PMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE PAdd(PNorm(PMulD(a, b[1], 1, 0)),
                        LET r == PMul(a, PNorm(Tail(b))) IN IF r = <<>> THEN r ELSE <<0>> \o r)

\* schoolbook division, one bit at a time
PDbl(a, bit) == PAdd(PAdd(a, a), IF bit = 0 THEN <<>> ELSE <<1>>)
PPow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16
              [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512
              [] k = 10 -> 1024 [] k = 11 -> 2048 [] k = 12 -> 4096 [] k = 13 -> 8192
              [] OTHER -> 16384
PBit(a, i) == (PDigit(a, (i \div 15) + 1) \div PPow2(i % 15)) % 2
PDigBits(d) == CHOOSE k \in 1..15 : d < 2 * PPow2(k-1) /\ d >= PPow2(k-1)
PBits(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + PDigBits(a[Len(a)])
PBitSeq(a) == [i \in 1..PBits(a) |-> PBit(a, PBits(a) - i)]
RECURSIVE PDivC(_, _, _, _, _)
PDivC(a, b, i, q, r) ==
   IF i < 0 THEN <<q, r>>
   ELSE LET r2 == PDbl(r, PBit(a, i))
        IN IF PCmp(r2, b) >= 0 THEN PDivC(a, b, i-1, PDbl(q, 1), PSub(r2, b))
           ELSE PDivC(a, b, i-1, PDbl(q, 0), r2)
PDivMod(a, b) == PDivC(a, b, PBits(a) - 1, <<>>, <<>>)
PMod(a, m) == PDivMod(a, m)[2]

RECURSIVE PPow(_, _)
PPow(a, k) == IF k = 0 THEN <<1>>
              ELSE IF k % 2 = 0 THEN PPow(PMul(a, a), k \div 2)
              ELSE PMul(a, PPow(a, k-1))

PAddMod(a, b, m) == PMod(PAdd(a, b), m)
PSubMod(a, b, m) == PMod(PSub(PAdd(PMod(a, m), m), PMod(b, m)), m)
PMulMod(a, b, m) == PMod(PMul(a, b), m)
RECURSIVE PPowModC(_, _, _, _, _)
PPowModC(a, e, m, i, acc) ==
   IF i < 0 THEN acc
   ELSE LET s == PMulMod(acc, acc, m)
        IN PPowModC(a, e, m, i-1, IF PBit(e, i) = 1 THEN PMulMod(s, a, m) ELSE s)
PPowMod(a, e, m) == PPowModC(PMod(a, m), e, m, PBits(e) - 1, PMod(<<1>>, m))

\* extended Euclid on naturals, coefficients kept modulo m
RECURSIVE PEuclid(_, _, _, _, _)
PEuclid(r0, r1, s0, s1, m) ==
   IF r1 = <<>> THEN <<r0, s0>>
   ELSE LET qr == PDivMod(r0, r1)
        IN PEuclid(r1, qr[2], s1, PSubMod(s0, PMulMod(qr[1], s1, m), m), m)
PInvMod(a, m) == LET e == PEuclid(m, PMod(a, m), <<>>, PMod(<<1>>, m), m)
                 IN IF e[1] = <<1>> THEN e[2] ELSE <<>>

PCAdd(x, y, m) == <<PAddMod(x[1], y[1], m), PAddMod(x[2], y[2], m)>>
PCSub(x, y, m) == <<PSubMod(x[1], y[1], m), PSubMod(x[2], y[2], m)>>
PCMul(x, y, m) == <<PSubMod(PMul(x[1], y[1]), PMul(x[2], y[2]), m),
                    PAddMod(PMul(x[1], y[2]), PMul(x[2], y[1]), m)>>
PCInv(x, m) == LET n == PInvMod(PAdd(PMul(x[1], x[1]), PMul(x[2], x[2])), m)
               IN <<PMulMod(x[1], n, m), PSubMod(<<>>, PMul(x[2], n), m)>>

RECURSIVE PSqrtC(_, _, _)
PSqrtC(a, i, r) == IF i < 0 THEN r
                   ELSE LET t == PAdd(r, PPow(<<2>>, i))
                        IN PSqrtC(a, i-1, IF PCmp(PMul(t, t), a) <= 0 THEN t ELSE r)
PSqrt(a) == PSqrtC(a, (PBits(a) + 1) \div 2, <<>>)

PHexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
PHexVal(c) == (CHOOSE k \in 1..16 : PHexDigits[k] = c) - 1
RECURSIVE PHexC(_, _, _)
PHexC(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE PHexC(s, i+1, PAdd(PMul(acc, <<16>>), PNat(PHexVal(SubSeq(s, i, i)))))
PHex(s) == PHexC(s, 1, <<>>)
RECURSIVE PToHexC(_)
PToHexC(a) == IF a = <<>> THEN ""
              ELSE LET qr == PDivMod(a, <<16>>)
                   IN PToHexC(qr[1]) \o PHexDigits[PToInt(qr[2]) + 1]
PToHex(a) == IF a = <<>> THEN "0" ELSE PToHexC(a)
\* value of a little-endian byte string written as hex text
RECURSIVE PLEHexC(_, _)
PLEHexC(s, i) == IF i > Len(s) THEN <<>>
                 ELSE PAdd(PNat(16 * PHexVal(SubSeq(s, i, i)) + PHexVal(SubSeq(s, i+1, i+1))),
                           PMul(PNat(256), PLEHexC(s, i + 2)))
PLEHex(s) == PLEHexC(s, 1)
RECURSIVE PToDecC(_)
PToDecC(a) == IF a = <<>> THEN ""
              ELSE LET qr == PDivMod(a, <<10>>)
                   IN PToDecC(qr[1]) \o PHexDigits[PToInt(qr[2]) + 1]
PToDec(a) == IF a = <<>> THEN "0" ELSE PToDecC(a)
=============================================================================
