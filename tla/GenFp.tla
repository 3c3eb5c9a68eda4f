------------------------------- MODULE GenFp --------------------------------
(* Cases for the base field (properties P05, P06, P07, P09).               *)
EXTENDS GenBase
What == EnvOr("GEN", "ring")
N == BToInt(BHex(EnvOr("SIZE_HEX", "60")))

I32 == << HSigned(1, BZero), HSigned(1, BOne), HSigned(0-1, BOne), HSigned(1, BTwo), HSigned(0-1, BTwo),
          HSigned(1, BNat(3)), HSigned(1, BNat(4)), HSigned(1, BNat(8)), HSigned(1, BNat(255)),
          HSigned(1, BNat(65535)), HSigned(1, BNat(65536)), HSigned(0-1, BNat(65536)),
          HSigned(1, BSub(Two(31), BOne)), HSigned(0-1, BSub(Two(31), BOne)), HSigned(0-1, Two(31)),
          HSigned(1, Two(30)), HSigned(0-1, BAdd(Two(30), BOne)) >>
RI32(s, n) == [k \in 1..n |-> HSigned(IF RInt(s, k, 2) = 0 THEN 1 ELSE 0-1, RBits(s + 5, k, 1 + RInt(s + 1, k, 31)))]
I64s == I32 \o << HSigned(1, BSub(Two(32), BOne)), HSigned(1, Two(32)), HSigned(0-1, Two(32)), HSigned(1, BSub(Two(63), BOne)),
          HSigned(0-1, BSub(Two(63), BOne)), HSigned(0-1, Two(63)), HSigned(1, Two(63)), HSigned(1, BSub(Two(64), BOne)),
          HSigned(1, BAdd(Two(63), BOne)), HSigned(1, BSub(Two(64), Two(32))) >>
       \o [k \in 1..20 |-> HSigned(IF k % 2 = 0 THEN 1 ELSE 0-1, RBits(4001, k, 1 + RInt(4002, k, 63)))]

StepOps == <<"add", "sub", "mul", "mul", "neg", "square", "half", "mul2", "mul3", "mul4", "mul8", "small", "cond",
             "condneg", "swap", "sop", "dop", "copy", "add", "sub">>
StepOps2 == StepOps \o <<"div", "inv", "sqrt">>
History(s, len, ops) ==
  LET pool == PoolOf(s, 24)
      regs == [k \in 1..4 |-> H(RPick(s + 1, k, pool))]
  IN << Ev("fp.init", <<regs>>) >> \o
     [k \in 1..len |-> Ev("fp.step", <<RPick(s + 2, k, ops), RInt(s + 3, k, 4), RInt(s + 4, k, 4), RInt(s + 5, k, 4),
                                       RInt(s + 6, k, 2000000001) - 1000000000 >>)]

ExpSmall == Small \o <<BNat(31), BNat(32), BNat(255), BNat(256), BNat(65535), Two(63), Two(64), BSub(Two(64), BOne)>>
Exps(s, n) == [k \in 1..n |-> IF k % 3 = 0 THEN Pat(s + 2, k, Two(RInt(s + 1, k, 200))) ELSE RBits(s, k, 1 + RInt(s + 1, k, 200))]
PowCase(x, e, s, k) ==
  LET extra == RInt(s, k, 4)
      n == BBits(e) + (IF extra = 3 THEN RInt(s + 1, k, 20) ELSE 0)
      off == IF k % 3 = 0 THEN 0 ELSE RInt(s + 2, k, 40)
  IN << H(x), H(e), n, off, H(RBits(s + 3, k, 64)) >>

Ring(z) ==
  LET pool == PoolOf(100, N)
      ys == Hs(pool)
      bin == [k \in 1..Len(pool) |-> Ev("fp.bin", <<ys[k], ys>>)]
      un == [k \in 1..Len(Structured \o PowerLike) |-> Ev("fp.un", <<H((Structured \o PowerLike)[k])>>)]
            \o [k \in 1..(4 * N) |-> Ev("fp.un", <<H(SoupVals(300 + k, 1)[1])>>)]
      small == [k \in 1..Len(pool) |-> Ev("fp.small", <<ys[k], I32 \o RI32(400 + k, 8)>>)]
      sop == [k \in 1..(4 * N) |-> Ev("fp.sop", <<RPick(501, k, ys), RPick(502, k, ys), RPick(503, k, ys), RPick(504, k, ys)>>)]
             \o [k \in 1..Len(ys) |-> Ev("fp.sop", <<ys[k], ys[k], ys[k], ys[k]>>)]
             \o [k \in 1..Len(ys) |-> Ev("fp.sop", <<ys[k], ys[1 + ((k * 7) % Len(ys))], ys[1], ys[1 + ((k * 3) % Len(ys))]>>)]
             \o [k \in 1..Len(ys) |-> Ev("fp.sop", <<ys[k], ys[1 + ((k * 5) % Len(ys))], ys[1 + ((k * 11) % Len(ys))], ys[1]>>)]
      es == ExpSmall \o Exps(600, N \div 2) \o <<PHalf, BSub(PP, BOne), BSub(PP, BTwo), PP>>
      pw == [k \in 1..Len(es) |-> Ev("fp.pow", PowCase(RPick(610, k, pool), es[k], 620, k))]
            \o << Ev("fp.pow", <<ys[1], "0", 0, 0, "ff">>), Ev("fp.pow", <<ys[1], "0", 5, 3, "ff">>),
                  Ev("fp.pow", <<ys[1], "1", 1, 0, "0">>) >>
      from == [k \in 1..Len(I64s) |-> Ev("fp.from", <<I64s[k]>>)]
      sel == [k \in 1..(2 * N) |-> Ev("fp.sel", <<RPick(701, k, ys), RPick(702, k, ys), k % 2>>)]
      eq == [k \in 1..(2 * N) |-> Ev("fp.eq", <<RPick(801, k, ys), RPick(IF k % 2 = 0 THEN 801 ELSE 802, k, ys), RPick(803, k, ys)>>)]
      hist == [k \in 1..(N \div 4) |-> History(9000 + 40 * k, 40, StepOps)]
  IN Chunks(bin, 2) \o Chunks(un \o small \o sop \o pw \o from \o sel \o eq, 25) \o hist

InvCases(z) ==
  LET pool == PoolOf(1100, N)
      ys == Hs(pool)
      all == Structured \o PowerLike \o SoupVals(1200, 3 * N) \o RandVals(1300, N)
             \o [k \in 1..N |-> FInv(SoupVals(1400 + k, 1)[1])]
             \o [k \in 1..N |-> FSqr(SoupVals(1500 + k, 1)[1])]
             \o [k \in 1..N |-> FDiv(RBits(1600, k, 32), Red(BAdd(RBits(1601, k, 32), BOne)))]
             \o [k \in 1..N |-> FDiv(Two(RInt(1603, k, BBits(PP))), Red(BAdd(RBits(1602, k, 1 + RInt(1604, k, 700)), BOne)))]
      inv == [k \in 1..Len(all) |-> Ev("fp.inv", <<H(all[k])>>)]
      div == [k \in 1..Len(pool) |-> Ev("fp.div", <<ys[k], SubSeq(ys, 1, 2) \o [j \in 1..10 |-> RPick(1700 + k, j, ys)] \o <<ys[k]>> >>)]
      hist == [k \in 1..(N \div 8) |-> History(19000 + 40 * k, 24, StepOps2)]
  IN Chunks(inv, 25) \o Chunks(div, 6) \o hist

SqrtCases(z) ==
  LET all == Structured \o Sub(PowerLike, 2000, 2 * N) \o SoupVals(2100, N) \o RandVals(2200, N)
             \o [k \in 1..(2 * N) |-> FSqr(SoupVals(2300 + k, 1)[1])]
             \o [k \in 1..N |-> FNeg(FSqr(SoupVals(2400 + k, 1)[1]))]
  IN Chunks([k \in 1..Len(all) |-> Ev("fp.sqrt", <<H(all[k])>>)], 10)

ELen == (BBits(PP) + 7) \div 8
FullB(k) == BSub(Two(8 * k), BOne)
EncCases(z) ==
  LET vals == Structured \o Sub(PowerLike, 3000, N) \o SoupVals(3100, N) \o RandVals(3200, N)
      enc == [k \in 1..Len(vals) |-> Ev("fp.enc", <<H(vals[k])>>)]
      near == [k \in 1..40 |-> BAdd(BSub(PP, BNat(20)), BNat(k))]
              \o [k \in 1..64 |-> BAdd(PP, Two(((k - 1) * BBits(PP)) \div 64))]
              \o [k \in 1..64 |-> BSub(PP, Two(((k - 1) * BBits(PP)) \div 64))]
              \o << BSub(Two(BBits(PP)), BOne), Two(BBits(PP)), FullB(ELen), BSub(FullB(ELen), BOne), BMul(PP, BTwo), BMul(PP, BNat(3)) >>
              \o [k \in 1..Limbs |-> BMul(FullB(8), Two(64 * (k - 1)))]
      nearok == SelectSeq(near, LAMBDA v : BBits(v) <= 8 * ELen)
      dec == [k \in 1..Len(nearok) |-> Ev("fp.dec", <<LEBytes(nearok[k], ELen)>>)]
      lens == << 0, 1, 2, 7, 8, 9, ELen - 2, ELen - 1, ELen, ELen + 1, ELen + 2, 8 * (Limbs - 1) - 1, 8 * (Limbs - 1), 8 * (Limbs - 1) + 1,
                 16 * (Limbs - 1) - 1, 16 * (Limbs - 1), 16 * (Limbs - 1) + 1, 24 * (Limbs - 1), 24 * (Limbs - 1) + 5, 8 * Limbs, 16 * Limbs >>
      dl == Concat([k \in 1..Len(lens) |->
              << Ev("fp.dec", <<LEBytes(FullB(lens[k]), lens[k])>>), Ev("fp.dec", <<LEBytes(BZero, lens[k])>>),
                 Ev("fp.dec", <<LEBytes(IF lens[k] = 0 THEN BZero ELSE BOne, lens[k])>>),
                 Ev("fp.dec", <<LEBytes(BMod(BMul(RBits(3300, k, 2000), RBits(3301, k, 2000)), Two(8 * lens[k])), lens[k])>>) >>])
      f2enc == [k \in 1..Len(vals) |-> Ev("f2.enc", <<<<H(vals[k]), H(RPick(3400, k, vals))>>>>)]
      mixed == nearok \o vals
      f2dec == [k \in 1..(2 * N) |-> Ev("f2.dec", <<LEBytes(RPick(3500, k, mixed), ELen) \o LEBytes(RPick(3501, k, mixed), ELen)>>)]
               \o [k \in 1..Len(lens) |-> Ev("f2.dec", <<LEBytes(BOne, lens[k] + 1)>>)]
               \o << Ev("f2.dec", <<LEBytes(BOne, 2 * ELen - 1)>>), Ev("f2.dec", <<LEBytes(BOne, 2 * ELen + 1)>>),
                     Ev("f2.dec", <<LEBytes(BOne, 2 * ELen)>>), Ev("f2.dec", <<"">>) >>
      rnd == [k \in 1..10 |-> Ev("fp.rand", <<RInt(3600, k, 1000000)>>)] \o [k \in 1..10 |-> Ev("f2.rand", <<RInt(3601, k, 1000000)>>)]
      eq == [k \in 1..N |-> Ev("fp.eq", <<H(RPick(3701, k, vals)), H(RPick(IF k % 2 = 0 THEN 3701 ELSE 3702, k, vals)), H(RPick(3703, k, vals))>>)]
  IN Chunks(enc \o dec \o dl \o f2enc \o f2dec \o rnd \o eq, 25)

Groups(z) == CASE What = "ring" -> Ring(z) [] What = "inv" -> InvCases(z) [] What = "sqrt" -> SqrtCases(z) [] What = "enc" -> EncCases(z)
ASSUME WriteGroups(Groups(0))
=============================================================================
