------------------------------ MODULE RandEvents ------------------------------
(***************************************************************************)
(* Random choices.  An event records many draws; the specification          *)
(* enumerates what a draw may be.  On small instances every admissible      *)
(* value has to occur (the number of draws makes a miss less likely than    *)
(* 1e-9); on the production field every window of binary digits has to      *)
(* vary and all draws differ.                                               *)
(***************************************************************************)
EXTENDS ProtoEvents

Tiny == BBits(PP) < 9
AllDiffer(r) == Cardinality(ToSet(r)) = Len(r)
Both(S) == Cardinality(S) >= 2
\* the windows of w digits of values (naturals) below 2^n, but for the lowest `skip` digits
Varies(vals, n, w, skip) ==
  \A j \in 0..((n - skip - 1) \div w) : \E a \in 2..Len(vals) : BMod(BShr(vals[a], skip + w * j), BPow(BTwo, IF skip + w * (j + 1) <= n THEN w ELSE n - skip - w * j)) # BMod(BShr(vals[1], skip + w * j), BPow(BTwo, IF skip + w * (j + 1) <= n THEN w ELSE n - skip - w * j))
FpVaries(hs) == Varies([k \in 1..Len(hs) |-> BHex(hs[k])], BBits(PP), 1, 0)
Small(z) == 0..(BToInt(PP) - 1)
AllF2(z) == {<<BNat(i), BNat(j)>> : i \in Small(0), j \in Small(0)}
NonSquare(x) == F2Legendre(x) < 0
CurvePoints(A) == UNION { LET y == F2Root(CurveRhs(A, x)) IN {<<x, y>>, <<x, F2Neg(y)>>} : x \in {u \in AllF2(0) : F2Legendre(CurveRhs(A, u)) >= 0} }
Hx(x) == <<BToHex(x[1]), BToHex(x[2])>>
HxP(P) == IF P = Inf THEN <<>> ELSE <<Hx(P[1]), Hx(P[2])>>
\* the points of order FProd(f)
OrderPoints(A, f) == LET D == FProd(f)
                         d == BToInt(D)
                     IN {P \in {EcMul(A, Q, BDiv(PPlus1, D)) : Q \in CurvePoints(A)} : PointOrderIs(A, P, f)}
\* the curves reached by random walks of cyclic isogenies, with those on the way
RECURSIVE Walks(_, _, _)
Walks(A, f, n) == IF n = 0 THEN {<<>>}
                  ELSE UNION { LET c == IsoChain(A, K, f, <<>>)[1] IN { <<Hx(c)>> \o w : w \in Walks(c, f, n - 1) } : K \in CyclicKernels(A, f) }

RandOps == {"rd.fp", "rd.f2", "rd.nsq", "rd.point", "rd.tor", "rd.iso", "rd.keys"}
RandEventOK(e) ==
  LET a == e.a
      r == e.r
      xs == [k \in 1..Len(r) |-> r[k][1]]
      ys == [k \in 1..Len(r) |-> r[k][2]]
  IN CASE e.op = "rd.fp" -> /\ \A k \in 1..Len(r) : BLt(BHex(r[k]), PP)
                            /\ AllDiffer(r) /\ FpVaries(r)
       [] e.op \in {"rd.f2", "rd.nsq"} ->
            LET ok(x) == e.op = "rd.f2" \/ NonSquare(x)
            IN IF Tiny THEN ToSet(r) = {Hx(x) : x \in {u \in AllF2(0) : ok(u)}}
               ELSE /\ \A k \in 1..Len(r) : ok(G(r[k]))
                    /\ AllDiffer(xs) /\ AllDiffer(ys) /\ FpVaries(xs) /\ FpVaries(ys)
                    /\ \A k \in 1..Len(r) : r[k][1] # r[k][2]
       [] e.op = "rd.point" ->
            LET A == G(a[1])
            IN IF Tiny THEN ToSet(r) = {HxP(P) : P \in CurvePoints(A)}
               ELSE /\ \A k \in 1..Len(r) : r[k] # <<>> /\ OnCurve(A, Pt(r[k]))
                    /\ AllDiffer(xs)
                    /\ FpVaries([k \in 1..Len(xs) |-> xs[k][1]]) /\ FpVaries([k \in 1..Len(xs) |-> xs[k][2]])
                    \* either root
                    /\ Both({F2Root(CurveRhs(A, G(xs[k]))) = G(ys[k]) : k \in 1..Len(r)})
       [] e.op = "rd.tor" ->
            LET A == G(a[1])
            IN IF Tiny THEN ToSet(r) = {HxP(P) : P \in OrderPoints(A, a[2])}
               ELSE /\ \A k \in 1..Len(r) : r[k] # <<>> /\ OnCurve(A, Pt(r[k])) /\ PointOrderIs(A, Pt(r[k]), a[2])
                    /\ BBits(FProd(a[2])) > 50 => AllDiffer(r)
                    \* the points generate the whole torsion group
                    /\ \A i \in 1..Len(a[2]) : LET l == BNat(a[2][i][1])
                                                   c == BDiv(FProd(a[2]), l)
                                               IN \E k \in 2..Len(r) : WeilSpec(A, EcMul(A, Pt(r[1]), c), EcMul(A, Pt(r[k]), c), l) # F2One
       [] e.op = "rd.iso" -> ToSet(r) = Walks(G(a[1]), a[2], a[3])
       [] e.op = "rd.keys" ->
            LET m1 == [k \in 1..Len(r) |-> BHex(r[k][3])]
                m2 == [k \in 1..Len(r) |-> BHex(r[k][4])]
                w == IF BBits(PP) > 200 THEN 8 ELSE 1
                x == [k \in 1..Len(r) |-> BMod(BAdd(m1[k], BSub(MaskOrder, m2[k])), MaskOrder)]
            IN /\ \A k \in 1..Len(r) : BLt(m1[k], MaskOrder) /\ BLt(m2[k], MaskOrder) /\ BOdd(m1[k]) /\ BOdd(m2[k])
               /\ Varies(m1, BB, w, 1) /\ Varies(m2, BB, w, 1) /\ Varies(x, BB, w, 1)
               /\ IF BBits(PP) > 200 THEN AllDiffer(xs) /\ AllDiffer(ys) /\ AllDiffer(m1) /\ AllDiffer(m2) /\ \A k \in 1..Len(r) : xs[k] # ys[k]
                  ELSE /\ ToSet(ys) = {w2[2] : w2 \in Walks(StartA, DA1F, 2)}
                       /\ Cardinality(ToSet(xs)) * 20 >= Len(r)
=============================================================================
