------------------------------- MODULE Protocol -------------------------------
(***************************************************************************)
(* The FESTA trapdoor as a transition system over abstract torsion groups:  *)
(* why inversion returns the input, for every choice the concrete           *)
(* computations leave open.                                                 *)
(*                                                                          *)
(* A point of order dividing 2^b * d1 * d2 is its three components, each a  *)
(* pair of coefficients with respect to a basis carried along the secret    *)
(* path E0 -> EA' -> EA (2^b and d1 parts: images of the bases of E0, d2    *)
(* part: a basis of EA'[d2] and its image in EA).  Isogenies of odd degree  *)
(* then are multiplications on the coefficients, up to an overall sign      *)
(* (they are computed with x-coordinates) -- except the duals of the        *)
(* message isogenies, which fold E1[d1] onto the kernel <P + s1 Q>.         *)
(*                                                                          *)
(* What the computation is free to choose, and the model enumerates:        *)
(*   signs  the signs of the two images of the message isogenies (eR, eS is *)
(*          common to a basis: evaluate_isogeny_chain_for_basis), and of    *)
(*          the two points that come out of the two-dimensional chain;      *)
(*   x, y   where the dual isogenies send the two points of the torsion     *)
(*          bases the receiver picks (any pair generating the kernel).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N2,        \* the chain has N2 steps, masks are modulo 2^(N2+2)
          D1f, D2f,  \* factored degrees of the message isogenies
          A1, A2,    \* the secret isogenies have degrees A1^2 and A2^2
          M1, M2,
          Focus      \* the parts whose choices are enumerated in full

RECURSIVE Prod(_)
Prod(f) == IF f = <<>> THEN 1 ELSE (f[1][1] ^ f[1][2]) * Prod(Tail(f))
D1 == Prod(D1f)
D2 == Prod(D2f)
DA1 == A1 * A1
DA2 == A2 * A2
L == 2 ^ (N2 + 2)
ASSUME Kani == M1 * M1 * D1 * DA1 + M2 * M2 * D2 * DA2 = 2 ^ N2

Inv(a, m) == IF m = 1 THEN 0 ELSE CHOOSE r \in 0..(m - 1) : (a * r) % m = 1
Unit(a, m) == \E r \in 0..(m - 1) : (a * r) % m = 1 % m
\* inverse of an odd number modulo L, from three bits doubled three times
Lift2(a, r) == (r * ((2 - a * r) % L)) % L
InvL(a) == Lift2(a, Lift2(a, Lift2(a, a)))
ASSUME L <= 2 ^ 13 /\ \A a \in {1, 3, 5, 7, L - 1} : (a * InvL(a)) % L = 1
Scale(c, v, m) == << (c * v[1]) % m, (c * v[2]) % m >>
Plus(v, w, m) == << (v[1] + w[1]) % m, (v[2] + w[2]) % m >>
Neg(v, m) == << (m - v[1]) % m, (m - v[2]) % m >>
Sgn(e, v, m) == IF e = 1 THEN v ELSE Neg(v, m)

\* ---- the constants the receiver precomputes
G2 == (M1 * D1 * InvL((M2 * DA2 * D2) % L)) % L
InvScalar == InvL((D1 * D1 * D2 * M1) % L)

\* ---- odd coefficients, and pairs that generate a cyclic group of factored order
Odd == {i \in 0..(L - 1) : i % 2 = 1}
Generating(f) == {v \in (0..(Prod(f) - 1)) \X (0..(Prod(f) - 1)) : \A i \in 1..Len(f) : v[1] % f[i][1] # 0 \/ v[2] % f[i][1] # 0}
Few(S) == IF S = {} THEN {} ELSE {CHOOSE v \in S : TRUE}
\* the whole set, or one of it, as the focus asks
All(part, S, one) == IF part \in Focus THEN S ELSE one

VARIABLES pc, sk, msg, ct, ch, out
vars == <<pc, sk, msg, ct, ch, out>>
None == <<>>

Init == /\ pc = "start" /\ sk = None /\ msg = None /\ ct = None /\ ch = None /\ out = None

\* a key: the masks; the published points are (a11, 0) and (0, a22) in the
\* carried basis of EA
KeyGen == /\ pc = "start"
          /\ \E a11 \in All("key", Odd, {5}), a22 \in All("key", {1, L - 1, 2 ^ N2 + 1, 3}, {7}) :
               sk' = [a11 |-> a11, a22 |-> a22]
          /\ pc' = "key"
          /\ UNCHANGED <<msg, ct, ch, out>>
\* a message: scalars and a canonical mask
Choose == /\ pc = "key"
          /\ \E s1 \in All("d1", 0..(D1 - 1), {2 % D1}), s2 \in All("d2", 0..(D2 - 1), {3 % D2}),
                b \in All("mask", {i \in Odd : i < L \div 2}, {3}) :
               msg' = [s1 |-> s1, s2 |-> s2, b |-> b]
          /\ pc' = "msg"
          /\ UNCHANGED <<sk, ct, ch, out>>
\* evaluation: images on E1 in the basis phi1(Pb), phi1(Qb), on E2 in the
\* basis phi2(phiA(Pb)), phi2(phiA(Qb)); the bases come out up to a common sign
Eval == /\ pc = "msg"
        /\ \E e1 \in All("sign", {1, -1}, {1}), e2 \in All("sign", {1, -1}, {-1}) :
             LET c == InvL(msg.b)
             IN ct' = [R1 |-> Sgn(e1, <<msg.b, 0>>, L), S1 |-> Sgn(e1, <<0, c>>, L),
                       R2 |-> Sgn(e2, <<(msg.b * sk.a11) % L, 0>>, L), S2 |-> Sgn(e2, <<0, (c * sk.a22) % L>>, L), e1 |-> e1, e2 |-> e2]
        /\ pc' = "sent"
        /\ UNCHANGED <<sk, msg, ch, out>>

\* ---- the receiver
\* removing the key's masks
R2p == Scale(InvL(sk.a11), ct.R2, L)
S2p == Scale(InvL(sk.a22), ct.S2, L)
\* maps to EA' on the 2^b part: m1 phiA1 phi1^ and m2 phiA2^ phi2^, on the
\* coefficients of the carried bases (phi1^ phi1 = D1, the two dual steps
\* on the other side give D2 * DA2)
Psi1(v) == Scale(M1 * D1, v, L)
Psi2(v) == Scale(M2 * D2 * DA2, v, L)
\* exponents of the Weil pairing of the kernel points on both sides relative
\* to e(Pb, Qb) on E0: the sum has to vanish modulo 2^N2 (isotropy)
Det(v, w, m) == (v[1] * w[2] + (m - v[2]) * w[1]) % m
Isotropic == LET K1 == Det(ct.R1, ct.S1, L)
                 K2 == Det(Scale(G2, R2p, L), Scale(G2, S2p, L), L)
             IN (((K1 * D1) % (2 ^ N2)) + ((((K2 * D2) % (2 ^ N2)) * ((DA1 * DA2) % (2 ^ N2))) % (2 ^ N2))) % (2 ^ N2) = 0
\* the chain with kernel 4*<(R1, g2 R2'), (S1, g2 S2')> maps (X1, X2) to
\* psi1(X1) - e psi2(X2) in EA', e the product of the two signs above
InKernel == LET e == ct.e1 * ct.e2
            IN /\ Psi1(ct.R1) = Sgn(e, Psi2(Scale(G2, R2p, L)), L)
               /\ Psi1(ct.S1) = Sgn(e, Psi2(Scale(G2, S2p, L)), L)
\* images of (Pd1 + R1, Pd2) and (Qd1 + S1, Qd2): the d1 part is a multiple
\* of P + s1 Q, the d2 part of P' + s2 Q', the 2^b part psi1 of R1, S1
Kernel(s, x, d) == << x % d, (x * s) % d >>
Invert == /\ pc = "sent"
          /\ \E x \in All("d1", Generating(D1f), {<<1 % D1, 1 % D1>>}), y \in All("d2", Generating(D2f), {<<1 % D2, 1 % D2>>}),
                
                g \in All("sign", {1, -1}, {1}), h \in All("sign", {1, -1}, {-1}) :
               ch' = [L1 |-> << Sgn(g, Psi1(ct.R1), L), Sgn(g, Kernel(msg.s1, M1 * x[1], D1), D1), Sgn(g, Kernel(msg.s2, M2 * y[1], D2), D2) >>,
                      L2 |-> << Sgn(h, Psi1(ct.S1), L), Sgn(h, Kernel(msg.s1, M1 * x[2], D1), D1), Sgn(h, Kernel(msg.s2, M2 * y[2], D2), D2) >>]
          /\ pc' = "chain"
          /\ UNCHANGED <<sk, msg, ct, out>>

\* Algorithm 6 of the paper: s with <R, S> = <P + s Q>, prime by prime
CanonicalKernel(R, S, f) ==
  LET d == Prod(f)
      t(i) == LET l == f[i][1]
                  q == l ^ f[i][2]
              IN IF R[1] % l = 0 THEN <<0, Inv(S[1] % q, q)>> ELSE <<Inv(R[1] % q, q), 0>>
      crt(j) == CHOOSE u \in 0..(d - 1) : \A i \in 1..Len(f) : u % (f[i][1] ^ f[i][2]) = t(i)[j]
  IN (crt(1) * R[2] + crt(2) * S[2]) % d
Recover == /\ pc = "chain"
           /\ LET im1 == << Scale(D1 * D2, ch.L1[1], L), Scale(L * D2, ch.L1[2], D1), Scale(L * D1, ch.L1[3], D2) >>
                  im2 == << Scale(D1 * D2, ch.L2[1], L), Scale(L * D2, ch.L2[2], D1), Scale(L * D1, ch.L2[3], D2) >>
                  al == (InvScalar * im1[1][1]) % L
                  b == IF al > L \div 2 THEN L - al ELSE al
              IN out' = [s1 |-> CanonicalKernel(im1[2], im2[2], D1f), s2 |-> CanonicalKernel(im1[3], im2[3], D2f), b |-> b]
           /\ pc' = "done"
           /\ UNCHANGED <<sk, msg, ct, ch>>
\* the same key serves any number of messages
Again == /\ pc = "done" /\ pc' = "key"
         /\ msg' = None /\ ct' = None /\ ch' = None /\ out' = None
         /\ UNCHANGED sk
Next == KeyGen \/ Choose \/ Eval \/ Invert \/ Recover \/ Again
Spec == Init /\ [][Next]_vars

RoundTrip == pc = "done" => out = msg
KernelOK == pc \in {"sent", "chain", "done"} => InKernel /\ Isotropic
=============================================================================
