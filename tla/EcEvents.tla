------------------------------ MODULE EcEvents ------------------------------
(***************************************************************************)
(* What the curve layer has to do: group law, scalar multiplication,       *)
(* validation and lifting, pairings, discrete logarithms, order tests,     *)
(* torsion bases, isomorphisms and odd isogenies.                          *)
(* Points arrive as <<>> (infinity) or <<x, y>>.                           *)
(***************************************************************************)
EXTENDS FieldEvents, Isogeny

Pt(v) == IF v = <<>> THEN Inf ELSE <<G(v[1]), G(v[2])>>
PtH(P) == IF P = Inf THEN <<>> ELSE <<GH(P[1]), GH(P[2])>>
PtHN(P) == PtH(EcNeg(P))
B01(b) == IF b THEN 1 ELSE 0
PtOf(x, y) == <<x, y>>

EcOps1 == {"ec.add", "ec.un", "ec.eq", "ec.mul", "ec.mulbig", "ec.valid", "ec.lift", "ec.iter", "ec.rand", "ec.curve"}

\* images up to the sign of each point
SameUpToSign(r, P) == r = PtH(P) \/ r = PtHN(P)
\* images up to one sign for all of them
SameUpToJointSign(r, Ps) == \/ \A k \in 1..Len(Ps) : r[k] = PtH(Ps[k])
                            \/ \A k \in 1..Len(Ps) : r[k] = PtHN(Ps[k])

EcEventOK(e) ==
  LET a == e.a
      r == e.r
  IN CASE e.op = "ec.add" ->
            LET A == G(a[1])
                P == Pt(a[2])
                Q == Pt(a[3])
            IN r = << PtH(EcAdd(A, P, Q)), PtH(EcSub(A, P, Q)) >>
       [] e.op = "ec.un" ->
            LET A == G(a[1])
                P == Pt(a[2])
                D == EcDbl(A, P)
            IN /\ r[1] = PtHN(P)
               /\ r[2] = PtH(D)
               /\ r[3] = PtH(EcDblN(A, P, a[4]))
               /\ r[4] = B01(P = Inf)
               /\ r[5] = B01(OnCurve(A, P))
               /\ r[6] = (IF P = Inf THEN <<GH(F2Zero), GH(F2Zero)>> ELSE PtH(P))
               /\ r[7] = (IF D = Inf THEN <<>> ELSE <<GH(D[1])>>)
       [] e.op = "ec.eq" -> r = B01(a[1] = a[2])
       [] e.op = "ec.mul" ->
            r = PtH(EcMul(G(a[1]), Pt(a[2]), BMod(LEValue(a[4]), BPow(BTwo, a[5]))))
       [] e.op = "ec.mulbig" -> r = PtH(EcMul(G(a[1]), Pt(a[2]), F(a[4])))
       [] e.op = "ec.valid" ->
            LET A == G(a[1])
                P == <<G(a[2]), G(a[3])>>
                okk == OnCurve(A, P)
                z0 == G(a[4]) = F2Zero
            IN /\ r[1] = B01(okk) /\ r[2] = (IF okk THEN PtH(P) ELSE <<>>)
               /\ r[3] = B01(okk \/ z0) /\ r[4] = (IF okk /\ ~z0 THEN PtH(P) ELSE <<>>)
               /\ r[5] = B01(okk) /\ r[6] = B01(okk \/ z0)
               /\ r[7] = (IF z0 THEN <<>> ELSE PtH(P))
       [] e.op = "ec.lift" ->
            LET A == G(a[1])
                X == G(a[2])
                Z == G(a[3])
            IN IF Z = F2Zero THEN r = <<1, <<>>>>
               ELSE LET x == F2Div(X, Z)
                        t == CurveRhs(A, x)
                    IN IF F2Legendre(t) >= 0
                       THEN r[1] = 1 /\ r[2] # <<>> /\ G(r[2][1]) = x /\ OnCurve(A, Pt(r[2]))
                       ELSE r = <<0, <<>>>>
       [] e.op = "ec.iter" ->
            LET A == G(a[1])
            IN /\ Len(r) = a[2]
               /\ \A k \in 1..Len(r) : r[k] # <<>> /\ OnCurve(A, Pt(r[k]))
               /\ Cardinality({r[k] : k \in 1..Len(r)}) = Len(r)
       [] e.op = "ec.rand" ->
            LET A == G(a[1])
            IN Len(r) = a[3] /\ \A k \in 1..Len(r) : r[k] # <<>> /\ OnCurve(A, Pt(r[k]))
       [] e.op = "ec.curve" ->
            LET A == G(a[1])
            IN IF CurveOK(A) THEN r = << a[1], GH(JInv(A)) >> ELSE r = <<>>
       [] e.op = "ec.order" -> r = B01(PointOrderIs(G(a[1]), Pt(a[2]), a[3]))
       [] e.op = "ec.f2order" -> r = B01(F2OrderIs(G(a[1]), a[2]))
       [] e.op = "ec.weil" -> r = GH(WeilSpec(G(a[1]), Pt(a[2]), Pt(a[3]), F(a[4])))
       [] e.op = "ec.tate" ->
            \* Frobenius of these curves is [-p]: with [n]R = Q the reduced value is the
            \* Weil pairing of P and (Frobenius - 1)(R) = -[(p+1)/n]Q, for every point Q
            LET n == F(a[4])
                f == G(r)
            IN /\ f # F2Zero
               /\ F2Pow(f, BDiv(BSub(BMul(PP, PP), BOne), n)) = F2Inv(WeilSpec(G(a[1]), Pt(a[2]), EcMul(G(a[1]), Pt(a[3]), BDiv(PPlus1, n)), n))
       [] e.op = "ec.bsgs" -> BLt(F(r), BNat(a[3])) /\ F2Pow(G(a[2]), F(r)) = G(a[1])
       [] e.op = "ec.phpow" -> BLt(F(r), BPow(BNat(a[3]), a[4])) /\ F2Pow(G(a[2]), F(r)) = G(a[1])
       [] e.op = "ec.ph" -> BLt(F(r), FProd(a[3])) /\ F2Pow(G(a[2]), F(r)) = G(a[1])
       [] e.op = "ec.bidlp" ->
            LET A == G(a[1])
                D == FProd(a[5])
            IN /\ BLt(F(r[1]), D) /\ BLt(F(r[2]), D)
               /\ PtH(EcAdd(A, EcMul(A, Pt(a[3]), F(r[1])), EcMul(A, Pt(a[4]), F(r[2])))) = a[2]
       [] e.op = "ec.kernel" ->
            \* the subgroup generated by the two points is that of P + [s]Q, which has
            \* full order: membership is a trivial pairing with the generator
            LET A == G(a[1])
                D == FProd(a[4])
                K == EcAdd(A, Pt(a[5][1]), EcMul(A, Pt(a[5][2]), F(r)))
            IN /\ BLt(F(r), D)
               /\ WeilSpec(A, Pt(a[2]), K, D) = F2One
               /\ WeilSpec(A, Pt(a[3]), K, D) = F2One
       [] e.op = "ec.basis" -> IsBasis(G(a[1]), Pt(r[1]), Pt(r[2]), a[2])
       [] e.op = "ec.ebasis" ->
            LET k == BBits(BDiv(PPlus1, F(a[2]))) - 1
            IN IsBasis(G(a[1]), Pt(r[1]), Pt(r[2]), <<<<2, k>>>>)
       [] e.op \in {"ec.genpt", "ec.genrnd"} ->
            LET A == G(a[1]) IN OnCurve(A, Pt(r)) /\ PointOrderIs(A, Pt(r), a[2])
       [] e.op = "ec.clear" -> r = PtH(EcMul(G(a[1]), Pt(a[2]), F(a[3])))
       [] e.op = "ec.isom" ->
            LET ims == [k \in 1..Len(r) |-> Pt(r[k])]
                pts == [k \in 1..Len(a[3]) |-> Pt(a[3][k])]
                \* the largest set of points that decides the sign is the whole list
                cs == {c \in IsoCandidates(G(a[1])) : c.A = G(a[2])}
            IN Len(r) = Len(a[3]) /\ \E c \in cs : LET w == F2Root(c.w2)
                                                   IN IsoMatches(c, w, pts, ims) \/ IsoMatches(c, F2Neg(w), pts, ims)
       [] e.op = "ec.chain" ->
            LET s == IsoChain(G(a[1]), Pt(a[2]), a[3], [k \in 1..Len(a[4]) |-> Pt(a[4][k])])
            IN /\ r[3] = GH(s[1])
               /\ r[1][Len(r[1])] = r[3]
               /\ Len(r[2]) = Len(a[4])
               /\ \A k \in 1..Len(a[4]) : SameUpToSign(r[2][k], s[3][k])
       [] e.op = "ec.chainbasis" ->
            LET s == IsoChain(G(a[1]), Pt(a[2]), a[3], <<Pt(a[4]), Pt(a[5])>>)
            IN r[1] = GH(s[1]) /\ SameUpToJointSign(<<r[2], r[3]>>, s[3])
       [] e.op = "ec.scalar" ->
            LET A == G(a[1])
                b == r[4]
                K == EcAdd(A, Pt(b[1]), EcMul(A, Pt(b[2]), F(a[3])))
                s == IsoChain(A, K, a[2], [k \in 1..Len(a[5]) |-> Pt(a[5][k])])
            IN /\ (a[4] # <<>> => b = a[4])
               /\ r[1] = GH(s[1])
               /\ \A k \in 1..Len(a[5]) : SameUpToSign(r[2][k], s[3][k])
       [] e.op = "ec.random" ->
            \* the kernels are not returned: the images of a basis of order n (a[5],
            \* prime to the degree) show the degree through their pairing
            LET A == G(a[1])
                A2 == G(r[2])
                n == FProd(a[5])
                deg == BMod(FoldLeft(LAMBDA acc, k : BMul(acc, FProd(a[2])), BOne, [k \in 1..a[3] |-> k]), n)
                P == Pt(r[3][1])
                Q == Pt(r[3][2])
                w == F2Pow(WeilSpec(A, Pt(a[4][1]), Pt(a[4][2]), n), deg)
                w2 == WeilSpec(A2, P, Q, n)
            IN /\ r[1][Len(r[1])] = r[2]
               /\ CurveOK(A2)
               /\ OnCurve(A2, P) /\ OnCurve(A2, Q)
               /\ EcMul(A2, P, n) = Inf /\ EcMul(A2, Q, n) = Inf
               /\ w2 = w \/ w2 = F2Inv(w)
       [] e.op = "int.xgcd" ->
            LET x == F(a[1])
                m == F(a[2])
            IN BLt(F(r), m) /\ (m = BOne \/ BMulMod(BMod(x, m), F(r), m) = BOne)
       [] e.op = "int.crt" ->
            /\ BLt(F(r), FProd(a[2]))
            /\ \A k \in 1..Len(a[2]) : LET m == BPow(BNat(a[2][k][1]), a[2][k][2])
                                       IN BMod(F(r), m) = BMod(F(a[1][k]), m)
       [] e.op = "int.sqrt" ->
            \A k \in 1..Len(a[1]) : r[k] = BToHex(BSqrt(F(a[1][k])))
=============================================================================
