------------------------------- MODULE GenRand -------------------------------
(* Cases for the random choices.                                            *)
EXTENDS EcPool
What == EnvOr("GEN", "fields")
N == BToInt(BHex(EnvOr("SIZE_HEX", "2")))
Tiny == BBits(PP) < 9
Full == BBits(PP) > 200
Seed1(s, i) == RInt(s, i, 1000000000)
\* draws that leave none of n equally likely values out but with probability 1e-9
Ln(n) == IF n < 10 THEN 3 ELSE IF n < 60 THEN 5 ELSE IF n < 400 THEN 6 ELSE IF n < 3000 THEN 8 ELSE 12
Draws(n) == n * (Ln(n) + 22)
P1(z) == BToInt(PP)
FieldGroups(z) ==
  LET n == IF Tiny THEN Draws(P1(0) * P1(0)) ELSE 160
  IN Concat([k \in 1..N |-> (IF Full THEN << <<Ev("rd.fp", <<Seed1(6000, k), n>>)>> >> ELSE <<>>)
       \o << <<Ev("rd.f2", <<Seed1(6001, k), n>>)>> >>
       \* (the toy parameters' non-residue is a square modulo 7)
       \o (IF PP = BNat(7) THEN <<>> ELSE << <<Ev("rd.nsq", <<Seed1(6002, k), n>>)>> >>)])
CurveNo(s, k) == IF k = 1 THEN E0A ELSE IF k % 3 = 0 THEN WalkCurve(s + k, k + 1) ELSE RandCurve(s + k)
PointGroups(z) ==
  [k \in 1..(2 * N) |-> << Ev("rd.point", <<HH(CurveNo(6100, k)), Seed1(6101, k), IF Tiny THEN Draws(2 * P1(0) * P1(0)) ELSE 160>>) >>]
\* all divisors of p + 1 on tiny fields
TwoVal(n) == CHOOSE v \in 0..20 : n % (2 ^ v) = 0 /\ (n \div (2 ^ v)) % 2 = 1
Power(l, e) == << <<l, e>> >>
TinyOrders(z) ==
  LET n == P1(0) + 1
      v == TwoVal(n)
      odd == {l \in 3..n : l % 2 = 1 /\ n % l = 0 /\ \A d \in 2..(l - 1) : l % d # 0}
      Exp(l) == CHOOSE e \in 1..9 : n % (l ^ e) = 0 /\ n % (l ^ (e + 1)) # 0
      odds == SetToSeq({Power(l, e) : l \in odd, e \in 1..9} \cap {Power(l, e) : l \in odd, e \in 1..3})
  IN [e \in 1..v |-> <<Power(2, e), v - e>>] \o [k \in 1..Len(odds) |-> <<odds[k], v>>]
     \o Concat([k \in 1..Len(odds) |-> <<<< <<<<2, v>>>> \o odds[k], 0>>, <<odds[k] \o <<<<2, 1>>>>, v - 1>>>>])
ExactOrders(z) == SelectSeq(TinyOrders(0), LAMBDA x : (P1(0) + 1) % BToInt(FProd(x[1])) = 0)
TorGroups(z) ==
  IF Tiny THEN LET os == ExactOrders(0) IN Concat([k \in 1..N |-> [j \in 1..Len(os) |->
       LET d == BToInt(FProd(os[j][1])) IN <<Ev("rd.tor", <<HH(IF (j + k) % 2 = 0 THEN E0A ELSE WalkCurve(6200 + k, j + 1)), os[j][1], os[j][2], Draws(d * d)>>)>>]])
  ELSE LET fs == <<D1F, D2F, DA1F, DA2F, <<D1F[1]>>, DA1F \o D2F>>
       IN [k \in 1..(IF Full THEN N ELSE 6 * N) |-> <<Ev("rd.tor", <<HH(IF k % 2 = 0 THEN E0A ELSE WalkCurve(6210 + k, k + 3)), fs[1 + (k % 6)], BB, IF Full THEN 20 ELSE 40>>)>>]
\* random walks on small degrees
IsoGroups(z) ==
  LET fs == SelectSeq(<<<<DA1F[1]>>, <<DA2F[1]>>, <<D1F[1]>>, <<D2F[1]>>>>, LAMBDA f : f[1][1] < 30 /\ f[1][2] = 1)
      Num(f, s) == IF s = 1 THEN f[1][1] + 1 ELSE (f[1][1] + 1) * (f[1][1] + 1)
  IN Concat([k \in 1..N |-> Concat([j \in 1..Len(fs) |-> [s \in 1..(IF fs[j][1][1] < 8 THEN 2 ELSE 1) |->
       <<Ev("rd.iso", <<HH(IF (j + k) % 2 = 0 THEN E0A ELSE WalkCurve(6300 + k, j + 1)), fs[j], s, Draws(Num(fs[j], s))>>)>>]])])
\* how many cyclic subgroups of order FProd(f)
Psi(f) == FoldLeft(LAMBDA acc, le : acc * (le[1] ^ (le[2] - 1)) * (le[1] + 1), 1, f)
KeyGroups(z) == [k \in 1..N |-> <<Ev("rd.keys", <<IF Full THEN 8 ELSE LET n == Psi(DA1F) IN Draws(n * n)>>)>>]
Groups(z) == CASE What = "fields" -> FieldGroups(0) [] What = "points" -> PointGroups(0) [] What = "tor" -> TorGroups(0)
               [] What = "iso" -> IsoGroups(0) [] What = "keys" -> KeyGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
