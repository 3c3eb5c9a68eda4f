------------------------------- MODULE GenF2 --------------------------------
(* Cases for the quadratic extension (P06, P07, P08).                      *)
EXTENDS GenBase
What == EnvOr("GEN", "f2ring")
N == BToInt(BHex(EnvOr("SIZE_HEX", "60")))
HH(x) == <<BToHex(x[1]), BToHex(x[2])>>
HHs(seq) == [k \in 1..Len(seq) |-> HH(seq[k])]

\* units and axes
Axes(seq) == Concat([k \in 1..Len(seq) |->
   LET c == seq[k] IN << <<c, BZero>>, <<BZero, c>>, <<c, c>>, <<c, FNeg(c)>>, <<c, BOne>>, <<BOne, c>> >>])
Pairs(s, n, pool) == [k \in 1..n |-> <<RPick(s, k, pool), RPick(s + 1, k, pool)>>]
CoreVals == <<BZero, BOne, BTwo, BNat(3), FNeg(BOne), FNeg(BTwo), FHalf(BOne), PHalf, BNat(4), BNat(5)>>
F2Pool(s, n) == LET pool == PoolOf(s, 2 * n)
                IN Sub(Axes(CoreVals), s + 7, n \div 3) \o Axes(Sub(pool, s + 8, n \div 12)) \o Pairs(s + 9, n \div 2, pool)

RI32(s, n) == [k \in 1..n |-> HSigned(IF RInt(s, k, 2) = 0 THEN 1 ELSE 0-1, RBits(s + 5, k, 1 + RInt(s + 1, k, 31)))]
I32 == << HSigned(1, BZero), HSigned(1, BOne), HSigned(0-1, BOne), HSigned(1, BTwo), HSigned(1, BSub(Two(31), BOne)),
          HSigned(0-1, BSub(Two(31), BOne)), HSigned(0-1, Two(31)) >>
StepOps == <<"add", "sub", "mul", "mul", "neg", "conj", "square", "half", "mul2", "mul3", "mul4", "mul8", "small", "cond",
             "condneg", "swap", "copy", "add", "sub", "square", "mul", "div", "inv">>
History(s, len) ==
  LET pool == F2Pool(s, 24)
      regs == [k \in 1..4 |-> HH(RPick(s + 1, k, pool))]
  IN << Ev("f2.init", <<regs>>) >> \o
     [k \in 1..len |-> Ev("f2.step", <<RPick(s + 2, k, StepOps), RInt(s + 3, k, 4), RInt(s + 4, k, 4), RInt(s + 5, k, 4),
                                       RInt(s + 6, k, 2000000001) - 1000000000 >>)]
ExpSmall == [k \in 1..40 |-> BNat(k - 1)] \o
            <<BNat(63), BNat(64), BNat(255), BNat(256), BNat(65535), Two(31), BSub(Two(32), BOne), Two(32), BAdd(Two(32), BOne),
              Two(62), Two(63), BSub(Two(63), BOne), BSub(Two(64), BOne), BSub(Two(64), BTwo), Two(64), BAdd(Two(64), BOne)>>
Exps(s, n) == [k \in 1..n |-> IF k % 4 = 3 THEN Pat(s + 2, k, Two(RInt(s + 1, k, 200))) ELSE RBits(s, k, 1 + RInt(s + 1, k, IF k % 3 = 0 THEN 200 ELSE 64))]
PowCase(x, e, s, k) ==
  LET extra == RInt(s, k, 4)
      b == BBits(e)
      n == b + (IF extra = 3 THEN RInt(s + 1, k, 20) ELSE 0)
      off == IF k % 3 = 0 THEN 0 ELSE RInt(s + 2, k, 40)
  IN << HH(x), H(e), IF b <= 64 /\ n > 64 THEN 64 ELSE n, off, H(RBits(s + 3, k, 64)) >>
BatchLens == <<0, 1, 2, 3, 7, 199, 200, 201, 202, 400, 401, 37>>

F2Ring(z) ==
  LET pool == F2Pool(10100, N)
      ys == HHs(pool)
      bin == [k \in 1..Len(pool) |-> Ev("f2.bin", <<ys[k], ys>>)]
      all == pool \o Axes(CoreVals) \o F2Pool(10200, 2 * N)
      un == [k \in 1..Len(all) |-> Ev("f2.un", <<HH(all[k])>>)]
      small == [k \in 1..Len(pool) |-> Ev("f2.small", <<ys[k], I32 \o RI32(10400 + k, 4)>>)]
      es == ExpSmall \o Exps(10600, N) \o <<PHalf, BSub(PP, BOne), PP, BAdd(PP, BOne)>>
      pw == [k \in 1..Len(es) |-> Ev("f2.pow", PowCase(RPick(10610, k, pool), es[k], 10620, k))]
            \o [k \in 1..Len(ExpSmall) |-> Ev("f2.pow", PowCase(RPick(10611, k, pool), ExpSmall[k], 10630, k))]
            \o << Ev("f2.pow", <<ys[1], "0", 0, 0, "ff">>), Ev("f2.pow", <<ys[2], "0", 5, 3, "ff">>), Ev("f2.pow", <<<<"0", "0">>, "0", 3, 0, "0">>),
                  Ev("f2.pow", <<<<"0", "0">>, "5", 3, 0, "0">>) >>
      sel == [k \in 1..N |-> Ev("f2.sel", <<RPick(10701, k, ys), RPick(10702, k, ys), k % 2>>)]
      eq == [k \in 1..N |-> Ev("f2.eq", <<RPick(10801, k, ys), RPick(IF k % 2 = 0 THEN 10801 ELSE 10802, k, ys), RPick(10803, k, ys)>>)]
            \o [k \in 1..Len(pool) |-> Ev("f2.eq", <<ys[k], HH(<<pool[k][1], FAdd(pool[k][2], BOne)>>), ys[1]>>)]
            \o [k \in 1..Len(pool) |-> Ev("f2.eq", <<ys[k], HH(<<FAdd(pool[k][1], BOne), pool[k][2]>>), ys[1]>>)]
      inv == [k \in 1..Len(all) |-> Ev("f2.inv", <<HH(all[k])>>)]
      div == [k \in 1..Len(pool) |-> Ev("f2.div", <<ys[k], <<<<"0", "0">>, <<"1", "0">>, ys[k]>> \o [j \in 1..6 |-> RPick(10900 + k, j, ys)]>>)]
      batch == [k \in 1..Len(BatchLens) |-> Ev("f2.batch", << [j \in 1..BatchLens[k] |->
                    IF RInt(11000 + k, j, 5) = 0 \/ j = (k * 13) % 41 \/ (k % 3 = 0 /\ j = 1) \/ j = 201 THEN <<"0", "0">>
                    ELSE RPick(11100 + k, j, ys)] >>)]
               \o << Ev("f2.batch", << [j \in 1..5 |-> <<"0", "0">>] >>), Ev("f2.batch", << [j \in 1..203 |-> <<"0", "0">>] >>),
                     Ev("f2.batch", << [j \in 1..4 |-> IF j = 4 THEN <<"0", "0">> ELSE ys[j]] >>) >>
      rnd == [k \in 1..10 |-> Ev("f2.rand", <<RInt(11200, k, 1000000)>>)]
      hist == [k \in 1..(N \div 4) |-> History(29000 + 40 * k, 40)]
  IN Chunks(bin, 2) \o Chunks(un \o small \o sel \o eq \o inv \o rnd, 25) \o Chunks(pw, 4) \o Chunks(div \o batch, 4) \o hist

F2Inv_(z) ==
  LET pool == F2Pool(12100, N)
      ys == HHs(pool)
      all == Axes(Structured) \o F2Pool(12200, 4 * N)
      inv == [k \in 1..Len(all) |-> Ev("f2.inv", <<HH(all[k])>>)]
      div == [k \in 1..Len(pool) |-> Ev("f2.div", <<ys[k], <<<<"0", "0">>, <<"1", "0">>, ys[k]>> \o [j \in 1..9 |-> RPick(12300 + k, j, ys)]>>)]
  IN Chunks(inv, 30) \o Chunks(div, 4)

\* elements on which the square and fourth root formulas branch
RootVals(z) ==
  LET base == Axes(CoreVals) \o F2Pool(13100, N)
      reals == Sub(Structured, 13200, N)
      axes == [k \in 1..Len(reals) |-> <<reals[k], BZero>>] \o [k \in 1..Len(reals) |-> <<BZero, reals[k]>>]
      sq == [k \in 1..Len(base) |-> F2Sqr(base[k])]
      fo == [k \in 1..Len(base) |-> F2Sqr(sq[k])]
      ifo == [k \in 1..Len(base) |-> F2Mul(F2I, fo[k])]
      nfo == [k \in 1..Len(base) |-> F2Neg(fo[k])]
      nonsq == <<BOne, BOne>>
  IN base \o axes \o sq \o fo \o ifo \o nfo
F2Sqrt(z) ==
  LET all == RootVals(0)
  IN Chunks([k \in 1..Len(all) |-> Ev("f2.sqrt", <<HH(all[k])>>)], 6)

Groups(z) == CASE What = "f2ring" -> F2Ring(z) [] What = "f2inv" -> F2Inv_(z) [] What = "f2sqrt" -> F2Sqrt(z)
ASSUME WriteGroups(Groups(0))
=============================================================================
