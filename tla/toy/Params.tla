---------------------------- MODULE Params -----------------------------
(* Small parameter sets; the environment names the prime (decimal) and,   *)
(* for a complete toy system, its degrees.                                *)
EXTENDS BigNat, Integers, Sequences, IOUtils
PDec == IF "FESTA_TOY_P" \in DOMAIN IOEnv THEN IOEnv.FESTA_TOY_P ELSE "2007407001599"
PHexOf == [x \in {"7", "23", "31", "47", "71", "79", "103", "127", "191", "239", "719", "2007407001599", "395435562762239", "1188660030556078079", "1722586285349999999", "29575609319423", "18384578150399", "1547406931918847", "20348826655006079"} |->
   CASE x = "7" -> "7" [] x = "23" -> "17" [] x = "31" -> "1f" [] x = "47" -> "2f" [] x = "71" -> "47" [] x = "79" -> "4f"
     [] x = "103" -> "67" [] x = "127" -> "7f" [] x = "191" -> "bf" [] x = "239" -> "ef" [] x = "719" -> "2cf"
     [] x = "2007407001599" -> "1d362c7ffff" [] x = "395435562762239" -> "167a5843fffff"
     [] x = "1188660030556078079" -> "107ef7ffffffffff"
     [] x = "1722586285349999999" -> "17e7db19913f157f"
     [] x = "29575609319423" -> "1ae61bafffff" [] x = "18384578150399" -> "10b87e3fffff" [] x = "1547406931918847" -> "57f5bc07fffff" [] x = "20348826655006079" -> "484b26685e1d7f"]
PP == BHex(PHexOf[PDec])
PPlus1 == BAdd(PP, BOne)
T20 == PDec = "395435562762239"
\* p + 1 = 2^7 3^15 5^8 7^4
TPow == PDec = "1722586285349999999"
\* p + 1 = 2^7 3^2 5 7 11 65537 700067
TBig == PDec = "20348826655006079"
P60 == PDec = "1188660030556078079"
\* complete systems (tools/mktoy.py)
S18 == PDec = "29575609319423"
S20 == PDec = "18384578150399"
S21 == PDec = "1547406931918847"
BB == IF T20 THEN 22 ELSE IF P60 THEN 43 ELSE IF TPow \/ TBig THEN 7 ELSE IF S18 THEN 20 ELSE IF S20 THEN 22 ELSE IF S21 THEN 23 ELSE 19
DiamondName == IF T20 THEN "t20" ELSE IF P60 THEN "p60" ELSE "t17"
ChainLen == BB - 2
\* the length the stored strategy is for
StoredLen == IF T20 THEN 20 ELSE IF S18 THEN 18 ELSE IF S20 THEN 20 ELSE IF S21 THEN 21 ELSE 17
D1F == IF TBig THEN <<<<65537,1>>,<<11,1>>>> ELSE IF TPow THEN <<<<3,15>>>> ELSE IF T20 THEN <<<<7,2>>,<<13,2>>>> ELSE IF S18 THEN <<<<17,1>>,<<47,1>>>> ELSE IF S20 THEN <<<<5,2>>,<<23,1>>>> ELSE IF S21 THEN <<<<19,1>>,<<53,1>>>> ELSE <<<<3,2>>,<<13,1>>>>
D2F == IF TBig THEN <<<<700067,1>>,<<7,1>>>> ELSE IF TPow THEN <<<<5,8>>>> ELSE IF T20 THEN <<<<3,2>>,<<23,1>>>> ELSE IF S18 THEN <<<<41,2>>>> ELSE IF S20 THEN <<<<11,2>>>> ELSE IF S21 THEN <<<<13,1>>,<<61,1>>>> ELSE <<<<5,2>>,<<11,1>>>>
DA1F == IF TBig THEN <<<<3,2>>>> ELSE IF TPow THEN <<<<7,4>>>> ELSE IF T20 THEN <<<<11,1>>>> ELSE IF S18 THEN <<<<3,1>>>> ELSE IF S20 THEN <<<<3,2>>>> ELSE IF S21 THEN <<<<7,1>>>> ELSE <<<<7,1>>>>
DA2F == IF TBig THEN <<<<5,1>>>> ELSE IF TPow THEN <<<<7,1>>>> ELSE IF T20 THEN <<<<5,1>>>> ELSE IF S18 THEN <<<<7,1>>>> ELSE IF S20 THEN <<<<7,1>>>> ELSE IF S21 THEN <<<<3,1>>,<<11,1>>>> ELSE <<<<17,1>>>>
M1V == IF T20 \/ S20 THEN BOne ELSE IF S18 \/ S21 THEN BNat(5) ELSE BNat(3)
M2V == IF T20 THEN BNat(3) ELSE IF S20 THEN BNat(13) ELSE BOne
Cofactor == 1
RECURSIVE ProdF(_)
ProdF(f) == IF f = <<>> THEN BOne ELSE BMul(BPow(BNat(f[1][1]), f[1][2]), ProdF(Tail(f)))
HardA(z) == <<>>
=============================================================================
