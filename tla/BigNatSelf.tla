----------------------------- MODULE BigNatSelf -----------------------------
(* Compares the Java overrides of BigNat with the plain definitions, over  *)
(* operand pairs built from boundary digits.                               *)
EXTENDS BigNat, TLC, Integers
D == {0, 1, 32767}
Seeds == {<<>>} \cup {s \in (UNION {[1..n -> D] : n \in 1..2}) : s[Len(s)] # 0}
Nums == Seeds \cup {<<16384>>, <<2, 16384>>, <<0, 0, 1>>, <<12345, 4, 32767, 9, 32001>>, <<32767,32767,32767,32767>>}
VARIABLES a, b
Init == a \in Nums /\ b = <<>>
Next == b = <<>> /\ a' = a /\ b' \in Nums
OK2 == /\ BCmp(a, b) = PCmp(a, b)
       /\ BAdd(a, b) = PAdd(a, b)
       /\ (PCmp(a, b) >= 0 => BSub(a, b) = PSub(a, b))
       /\ BMul(a, b) = PMul(a, b)
       /\ (b # <<>> => /\ BDiv(a, b) = PDivMod(a, b)[1] /\ BMod(a, b) = PMod(a, b)
                       /\ BAddMod(a, b, b) = PAddMod(a, b, b)
                       /\ BSubMod(a, <<7, 1>>, b) = PSubMod(a, <<7, 1>>, b)
                       /\ BMulMod(a, a, b) = PMulMod(a, a, b)
                       /\ BInvMod(a, b) = PInvMod(a, b)
                       /\ LET x == <<PMod(a, b), PMod(<<7, 1>>, b)>>
                              y == <<PMod(<<12, 3, 5>>, b), PMod(PAdd(a, <<5>>), b)>>
                          IN /\ BCAdd(x, y, b) = PCAdd(x, y, b)
                             /\ BCSub(x, y, b) = PCSub(x, y, b)
                             /\ BCMul(x, y, b) = PCMul(x, y, b)
                             /\ BCInv(x, b) = PCInv(x, b))
OK1 == /\ BToDec(a) = PToDec(a)
       /\ (Len(PToHex(a)) % 2 = 0 => BLEHex(PToHex(a)) = PLEHex(PToHex(a))) /\ BLEHex("") = PLEHex("")
       /\ BToHex(a) = PToHex(a) /\ BHex(PToHex(a)) = a /\ PHex(BToHex(a)) = a
       /\ BBitSeq(a) = PBitSeq(a) /\ BBits(a) = PBits(a) /\ \A i \in {0, 1, 14, 15, 16, 29, 30, 31} : BBit(a, i) = PBit(a, i)
       /\ BPow(a, 3) = PPow(a, 3) /\ BSqrt(a) = PSqrt(a)
       /\ BPowMod(a, <<5, 1>>, <<99, 7>>) = PPowMod(a, <<5, 1>>, <<99, 7>>)
       /\ PIsNat(a) /\ (Len(a) <= 2 => /\ BToInt(a) = PToInt(a) /\ BNat(PToInt(a)) = a /\ PNat(PToInt(a)) = a)
Inv == OK2 /\ (b = <<>> => OK1)
Spec == Init /\ [][Next]_<<a, b>>
=============================================================================
