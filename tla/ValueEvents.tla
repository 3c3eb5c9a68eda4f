------------------------------ MODULE ValueEvents -----------------------------
(* Equality, hash codes and printed forms are functions of the value.       *)
EXTENDS ProtoEvents
Txt2(v) == "i*" \o BToDec(BHex(v[2])) \o " + " \o BToDec(BHex(v[1]))
TxtMsg(m) == "(" \o BToDec(BHex(m[1])) \o ", " \o BToDec(BHex(m[2])) \o ", (" \o BToDec(BHex(m[3])) \o ", " \o BToDec(BHex(m[4])) \o "))"
\* e[i][j] says whether x[i] = x[j]
EqMatrix(e, x) == /\ Len(e) = Len(x)
                  /\ \A i \in 1..Len(x) : Len(e[i]) = Len(x) /\ \A j \in 1..Len(x) : e[i][j] = IF x[i] = x[j] THEN 1 ELSE 0
Injective(h, x) == Cardinality({h[k] : k \in 1..Len(h)}) = Cardinality({x[k] : k \in 1..Len(x)})
                   /\ Cardinality({<<h[k], x[k]>> : k \in 1..Len(x)}) = Cardinality({x[k] : k \in 1..Len(x)})
Functional(h, x) == Cardinality({<<h[k], x[k]>> : k \in 1..Len(x)}) = Cardinality({x[k] : k \in 1..Len(x)})
Word == BPow(BTwo, 64)
\* (h0 << 1) | (h1 & 1)
Code2(h0, h1) == BToHex(BAdd(BMod(BMul(BHex(h0), BTwo), Word), IF BOdd(BHex(h1)) THEN BOne ELSE BZero))
ValueOps == {"va.fp", "va.f2", "va.msg", "va.curve"}
ValueEventOK(e) ==
  LET a == e.a[1]
      r == e.r
      Col(i) == [k \in 1..Len(r[1]) |-> r[1][k][i]]
  IN CASE e.op = "va.fp" -> /\ Len(r[1]) = Len(a)
                            /\ EqMatrix(r[2], a) /\ Injective(Col(1), a) /\ Functional(Col(2), a)
                            /\ \A k \in 1..Len(a) : r[1][k][3] = BToDec(BHex(a[k]))
       [] e.op = "va.f2" -> /\ Len(r[1]) = Len(a)
                            /\ EqMatrix(r[2], a) /\ Injective(Col(1), a) /\ Functional(Col(2), a)
                            /\ \A k \in 1..Len(a) : r[1][k][2] = Code2(r[1][k][3], r[1][k][4]) /\ r[1][k][5] = Txt2(a[k])
                            /\ r[3] = Cardinality({a[k] : k \in 1..Len(a)})
       [] e.op = "va.msg" -> EqMatrix(r[2], a) /\ Len(r[1]) = Len(a) /\ \A k \in 1..Len(a) : r[1][k] = TxtMsg(a[k])
       [] e.op = "va.curve" -> r = "Montgomery Curve with coefficient: " \o Txt2(a)
=============================================================================
