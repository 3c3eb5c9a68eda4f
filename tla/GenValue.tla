------------------------------- MODULE GenValue ------------------------------
(* Cases for equality, hash codes and printed forms.                        *)
EXTENDS EcPool
What == EnvOr("GEN", "values")
N == BToInt(BHex(EnvOr("SIZE_HEX", "2")))
\* a value and its neighbours: one digit changed, as a value or internally, the negative, itself again
Near(s, i) == LET x == RBelow(s, i, PP)
              IN <<x, x, FNeg(x)>> \o [k \in 1..Limbs |-> FAdd(x, Red(Two(64 * (k - 1) + RInt(s + 1, 100 * i + k, 64))))]
                 \o [k \in 1..Limbs |-> FAdd(x, Inner(Red(Two(64 * (k - 1) + RInt(s + 2, 100 * i + k, 64)))))]
Near2(s, i) == LET a == RBelow(s, i, PP)
                   b == RBelow(s + 1, i, PP)
                   d == Sub(Near(s + 2, i), s + 3, 20)
                   e == Sub(Near(s, i), s + 4, 20)
               IN << <<a, b>>, <<a, b>>, <<b, a>>, <<a, FNeg(b)>>, <<FNeg(a), b>>, <<FNeg(a), FNeg(b)>>, <<a, a>>, <<b, b>>, <<a, BZero>>, <<BZero, a>>, <<BZero, b>>, <<b, BZero>>,
                     <<BZero, BZero>>, <<BOne, BZero>>, <<BZero, BOne>>, <<FAdd(a, BOne), FSub(b, BOne)>>, <<FAdd(a, b), BZero>> >>
                  \o [k \in 1..Len(d) |-> <<a, d[k]>>] \o [k \in 1..Len(e) |-> <<e[k], b>>]
HHs(seq) == [k \in 1..Len(seq) |-> HH(seq[k])]
ValueGroups(z) ==
  Concat([k \in 1..N |-> << <<Ev("va.fp", <<Hs(Near(7000, k))>>), Ev("va.fp", <<Hs(PoolOf(7100 + k, 60))>>)>>,
                            <<Ev("va.f2", <<HHs(Near2(7200, k))>>)>>,
                            [j \in 1..6 |-> Ev("va.curve", <<HH(IF j = 1 THEN E0A ELSE RandCurve(7300 + 10 * k + j))>>)] >>])
TinyGroups(z) == << <<Ev("va.f2", <<HHs(AllX(0))>>)>> >>
Masks(s, i) == LET b == RBelow(s, i, BPow(BTwo, BB)) IN IF BOdd(b) THEN b ELSE BAdd(b, BOne)
MsgGroups(z) ==
  [k \in 1..N |->
    LET m == <<RBelow(7400, k, FProd(D1F)), RBelow(7401, k, FProd(D2F)), Masks(7402, k), Masks(7403, k)>>
        flip(x, j) == LET b == Two(j) IN IF BBit(x, j) = 1 THEN BSub(x, b) ELSE BAdd(x, b)
        one(c, j) == [m EXCEPT ![c] = flip(m[c], j)]
        ms == <<m, m, <<m[2], m[1], m[3], m[4]>>, <<m[1], m[2], m[4], m[3]>>, <<BZero, BZero, BOne, BOne>>, <<BZero, BOne, BOne, BOne>>>>
              \o Concat([c \in 1..4 |-> [j \in 1..5 |-> one(c, IF j = 1 THEN 0 ELSE IF j = 2 THEN BBits(m[c]) - 1 ELSE RInt(7404, 100 * k + 10 * c + j, BBits(m[c])))]])
    IN <<Ev("va.msg", <<[j \in 1..Len(ms) |-> Hs(ms[j])]>>)>>]
Groups(z) == CASE What = "values" -> ValueGroups(0) [] What = "tiny" -> TinyGroups(0) [] What = "messages" -> MsgGroups(0)
ASSUME WriteGroups(Groups(0))
=============================================================================
