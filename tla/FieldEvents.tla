----------------------------- MODULE FieldEvents ----------------------------
(***************************************************************************)
(* What the base field and its quadratic extension have to do: for every   *)
(* operation the set of results it may produce, and the register machine   *)
(* whose steps are the in-place operations.                                *)
(* Operands and results arrive as hexadecimal text; F(s) reads one.        *)
(***************************************************************************)
EXTENDS Field, TLC

F(s) == BHex(s)
G(v) == <<BHex(v[1]), BHex(v[2])>>
GH(x) == <<BToHex(x[1]), BToHex(x[2])>>
Sgn(v) == <<v[1], BHex(v[2])>>
ELen == (BBits(PP) + 7) \div 8

\* ------------------------------------------------------------ sign rules
F2SignOK(y) == IF BIsZero(y[1]) THEN FEven(y[2]) ELSE FEven(y[1])

SqrtOK(x, s, c) ==
   IF FIsSquare(x) THEN c = 1 /\ FIs(s) /\ FSqr(s) = x /\ FEven(s)
                   ELSE c = 0 /\ s = FZero
\* p = 7 (mod 8): -1 is no square, so a square has a root that is a square and
\* the fourth powers are exactly the squares
FourthOK(x, s, c) ==
   IF FIsSquare(x) THEN c = 1 /\ FIs(s) /\ FSqr(FSqr(s)) = x /\ FEven(s)
                   ELSE c = 0 /\ s = FZero
F2SqrtOK(x, s, c) ==
   IF F2Legendre(x) >= 0 THEN c = 1 /\ F2Is(s) /\ F2Sqr(s) = x /\ F2SignOK(s)
                         ELSE c = 0 /\ s = F2Zero
\* x is a fourth power of Fp2 exactly when one exists; the certificate for the
\* positive answer is the root itself, the negative answer is decided by the
\* power map
F2FourthOK(x, s, c) ==
   IF c = 1 THEN F2Is(s) /\ F2Sqr(F2Sqr(s)) = x /\ F2SignOK(s)
            ELSE c = 0 /\ s = F2Zero /\ ~F2IsFourth(x)

\* ------------------------------------------------------ little-endian text
\* value of a little-endian byte string given as hex text
LEValue(b) == BLEHex(b)

\* ------------------------------------------------------- register machine
FpStep(regs, a) ==
  LET k == a[1]
      i == a[2] + 1
      j == a[3] + 1
      l == a[4] + 1
      n == a[5]
      x == regs[i]
      y == regs[j]
      z == regs[l]
      odd == n % 2 = 1
      Put(v) == [regs EXCEPT ![i] = v]
  IN CASE k = "add" -> Put(FAdd(x, y))
       [] k = "sub" -> Put(FSub(x, y))
       [] k = "mul" -> Put(FMul(x, y))
       [] k = "div" -> Put(FDiv(x, y))
       [] k = "neg" -> Put(FNeg(x))
       [] k = "square" -> Put(FSqr(x))
       [] k = "half" -> Put(FHalf(x))
       [] k = "mul2" -> Put(FMul(x, FRed(BNat(2))))
       [] k = "mul3" -> Put(FMul(x, FRed(BNat(3))))
       [] k = "mul4" -> Put(FMul(x, FRed(BNat(4))))
       [] k = "mul8" -> Put(FMul(x, FRed(BNat(8))))
       [] k = "small" -> Put(FMul(x, FSigned(IF n < 0 THEN <<0-1, BNat(0-n)>> ELSE <<1, BNat(n)>>)))
       [] k = "cond" -> Put(IF odd THEN y ELSE x)
       [] k = "condneg" -> Put(IF odd THEN FNeg(x) ELSE x)
       [] k = "swap" -> IF odd THEN [regs EXCEPT ![i] = y, ![j] = x] ELSE regs
       [] k = "inv" -> Put(FInv(x))
       [] k = "sqrt" -> Put(FSqrtEven(x))
       [] k = "sop" -> Put(FAdd(FMul(x, y), FMul(z, y)))
       [] k = "dop" -> Put(FSub(FMul(x, y), FMul(z, x)))
       [] k = "copy" -> Put(y)
F2Step(regs, a) ==
  LET k == a[1]
      i == a[2] + 1
      j == a[3] + 1
      n == a[5]
      x == regs[i]
      y == regs[j]
      odd == n % 2 = 1
      Put(v) == [regs EXCEPT ![i] = v]
  IN CASE k = "add" -> Put(F2Add(x, y))
       [] k = "sub" -> Put(F2Sub(x, y))
       [] k = "mul" -> Put(F2Mul(x, y))
       [] k = "div" -> Put(F2Div(x, y))
       [] k = "neg" -> Put(F2Neg(x))
       [] k = "conj" -> Put(F2Conj(x))
       [] k = "square" -> Put(F2Sqr(x))
       [] k = "half" -> Put(F2Half(x))
       [] k = "mul2" -> Put(F2Scale(FRed(BNat(2)), x))
       [] k = "mul3" -> Put(F2Scale(FRed(BNat(3)), x))
       [] k = "mul4" -> Put(F2Scale(FRed(BNat(4)), x))
       [] k = "mul8" -> Put(F2Scale(FRed(BNat(8)), x))
       [] k = "small" -> Put(F2Scale(FSigned(IF n < 0 THEN <<0-1, BNat(0-n)>> ELSE <<1, BNat(n)>>), x))
       [] k = "cond" -> Put(IF odd THEN y ELSE x)
       [] k = "condneg" -> Put(IF odd THEN F2Neg(x) ELSE x)
       [] k = "swap" -> IF odd THEN [regs EXCEPT ![i] = y, ![j] = x] ELSE regs
       [] k = "inv" -> Put(F2Inv(x))
       [] k = "copy" -> Put(y)

FieldOps == {"fp.init", "fp.step", "f2.init", "f2.step"}
\* next register state of a history event
FieldNext(st, e) ==
  CASE e.op = "fp.init" -> [k \in 1..Len(e.a[1]) |-> F(e.a[1][k])]
    [] e.op = "f2.init" -> [k \in 1..Len(e.a[1]) |-> G(e.a[1][k])]
    [] e.op = "fp.step" -> FpStep(st, e.a)
    [] e.op = "f2.step" -> F2Step(st, e.a)
\* registers logged after the event
FieldObs(e) == IF e.op \in {"fp.init", "fp.step"} THEN [k \in 1..Len(e.r) |-> F(e.r[k])]
                                                ELSE [k \in 1..Len(e.r) |-> G(e.r[k])]

\* ---------------------------------------------------- stateless operations
Scalars == <<BNat(2), BNat(3), BNat(4), BNat(8)>>

FieldEventOK(e) ==
  LET a == e.a
      r == e.r
  IN CASE e.op = "fp.bin" ->
            LET x == F(a[1])
            IN \A k \in 1..Len(a[2]) :
                 LET y == F(a[2][k])
                 IN /\ r[k][1] = BToHex(FAdd(x, y))
                    /\ r[k][2] = BToHex(FSub(x, y))
                    /\ r[k][3] = BToHex(FMul(x, y))
       [] e.op = "fp.un" ->
            LET x == F(a[1])
            IN /\ r[1] = BToHex(FNeg(x))
               /\ r[2] = BToHex(FSqr(x))
               /\ r[3] = BToHex(FHalf(x))
               /\ \A k \in 1..4 : r[3 + k] = BToHex(FMul(x, FRed(Scalars[k])))
               /\ r[8] = (IF BIsZero(x) THEN 1 ELSE 0)
       [] e.op = "fp.small" ->
            \A k \in 1..Len(a[2]) : r[k] = BToHex(FMul(F(a[1]), FSigned(Sgn(a[2][k]))))
       [] e.op = "fp.sop" ->
            LET w == F(a[1])
                x == F(a[2])
                y == F(a[3])
                z == F(a[4])
            IN /\ r[1] = BToHex(FAdd(FMul(w, x), FMul(y, z)))
               /\ r[2] = BToHex(FSub(FMul(w, x), FMul(y, z)))
       [] e.op = "fp.pow" -> r = BToHex(FPow(F(a[1]), F(a[2])))
       [] e.op = "fp.from" -> Len(r) > 0 /\ \A k \in 1..Len(r) : r[k] = BToHex(FSigned(Sgn(a[1])))
       [] e.op = "fp.sel" ->
            LET x == a[1]
                y == a[2]
                c == a[3] = 1
            IN /\ r[1] = (IF c THEN y ELSE x)
               /\ r[2] = (IF c THEN y ELSE x)
               /\ r[3] = (IF c THEN BToHex(FNeg(F(x))) ELSE x)
               /\ r[4] = (IF c THEN y ELSE x)
               /\ r[5] = (IF c THEN x ELSE y)
       [] e.op = "fp.eq" -> LET b == IF F(a[1]) = F(a[2]) THEN 1 ELSE 0 IN r = <<b, b>>
       [] e.op = "fp.inv" ->
            LET x == F(a[1]) IN /\ r[1] = BToHex(FInv(x))
                                /\ (~BIsZero(x) => FMul(x, F(r[1])) = FOne)
                                /\ r[2] = FLegendre(x)
       [] e.op = "fp.div" -> \A k \in 1..Len(a[2]) : r[k] = BToHex(FDiv(F(a[1]), F(a[2][k])))
       [] e.op = "fp.sqrt" ->
            LET x == F(a[1]) IN SqrtOK(x, F(r[1]), r[2]) /\ FourthOK(x, F(r[3]), r[4])
       [] e.op = "fp.enc" ->
            /\ Len(r[1]) = 2 * ELen /\ LEValue(r[1]) = F(a[1])
            /\ r[2] = a[1] /\ r[3] = 1
            /\ r[4] = BToDec(F(a[1]))
       [] e.op = "fp.dec" ->
            LET v == LEValue(a[1])
                okk == Len(a[1]) = 2 * ELen /\ BLt(v, PP)
            IN /\ r[1] = (IF okk THEN BToHex(v) ELSE "0")
               /\ r[2] = (IF okk THEN 1 ELSE 0)
               /\ r[3] = BToHex(FRed(v))
       [] e.op = "fp.rand" -> FIs(F(r))
       [] e.op = "f2.bin" ->
            LET x == G(a[1])
            IN \A k \in 1..Len(a[2]) :
                 LET y == G(a[2][k])
                 IN /\ r[k][1] = GH(F2Add(x, y))
                    /\ r[k][2] = GH(F2Sub(x, y))
                    /\ r[k][3] = GH(F2Mul(x, y))
                    /\ r[k][4] = (IF x = y THEN 1 ELSE 0)
       [] e.op = "f2.un" ->
            LET x == G(a[1])
            IN /\ r[1] = GH(F2Neg(x))
               /\ r[2] = GH(F2Conj(x))
               /\ r[3] = GH(F2Sqr(x))
               /\ r[4] = GH(F2Half(x))
               /\ \A k \in 1..4 : r[4 + k] = GH(F2Scale(FRed(Scalars[k]), x))
               /\ r[9] = (IF x = F2Zero THEN 1 ELSE 0)
       [] e.op = "f2.small" ->
            \A k \in 1..Len(a[2]) : r[k] = GH(F2Scale(FSigned(Sgn(a[2][k])), G(a[1])))
       [] e.op = "f2.pow" -> r = GH(F2Pow(G(a[1]), F(a[2])))
       [] e.op = "f2.sel" ->
            LET x == a[1]
                y == a[2]
                c == a[3] = 1
            IN /\ r[1] = (IF c THEN y ELSE x)
               /\ r[2] = (IF c THEN y ELSE x)
               /\ r[3] = (IF c THEN GH(F2Neg(G(x))) ELSE x)
               /\ r[4] = (IF c THEN y ELSE x)
               /\ r[5] = (IF c THEN x ELSE y)
       [] e.op = "f2.eq" -> LET b == IF G(a[1]) = G(a[2]) THEN 1 ELSE 0 IN r = <<b, b>>
       [] e.op = "f2.inv" ->
            LET x == G(a[1]) IN /\ r[1] = GH(F2Inv(x))
                                /\ (x # F2Zero => F2Mul(x, G(r[1])) = F2One)
                                /\ r[2] = F2Legendre(x)
       [] e.op = "f2.div" -> \A k \in 1..Len(a[2]) : r[k] = GH(F2Div(G(a[1]), G(a[2][k])))
       [] e.op = "f2.sqrt" ->
            LET x == G(a[1]) IN F2SqrtOK(x, G(r[1]), r[2]) /\ F2FourthOK(x, G(r[3]), r[4])
       [] e.op = "f2.batch" -> /\ Len(r) = Len(a[1])
                               /\ \A k \in 1..Len(r) : r[k] = GH(F2Inv(G(a[1][k])))
       [] e.op = "f2.enc" ->
            LET x == G(a[1])
            IN /\ Len(r[1]) = 4 * ELen
               /\ LEValue(r[1]) = BAdd(x[1], BShl(x[2], 8 * ELen))
               /\ r[2] = a[1] /\ r[3] = 1
               /\ r[4] = "i*" \o BToDec(x[2]) \o " + " \o BToDec(x[1])
       [] e.op = "f2.dec" ->
            LET v == LEValue(a[1])
                m == BShl(BOne, 8 * ELen)
                lo == BMod(v, m)
                hi == BDiv(v, m)
                okk == Len(a[1]) = 4 * ELen /\ BLt(lo, PP) /\ BLt(hi, PP)
            IN /\ r[1] = (IF okk THEN <<BToHex(lo), BToHex(hi)>> ELSE <<"0", "0">>)
               /\ r[2] = (IF okk THEN 1 ELSE 0)
       [] e.op = "f2.rand" -> F2Is(G(r[1])) /\ F2Is(G(r[2])) /\ F2Legendre(G(r[2])) = 0-1

FieldEventOps == {"f2.batch", "f2.bin", "f2.dec", "f2.div", "f2.enc", "f2.eq", "f2.inv", "f2.pow", "f2.rand", "f2.sel", "f2.small",
   "f2.sqrt", "f2.un", "fp.bin", "fp.dec", "fp.div", "fp.enc", "fp.eq", "fp.from", "fp.inv", "fp.pow", "fp.rand", "fp.sel",
   "fp.small", "fp.sop", "fp.sqrt", "fp.un"}
=============================================================================
