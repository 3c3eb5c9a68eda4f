From cce986949cdc3498e7a38a6d6d2dbdc01ea649e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 1/8] hook: parameter module replaceable under cfg(festa_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 091f178..b004348 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,16 @@
 #![allow(non_snake_case)]
+#![allow(unexpected_cfgs)]
 
 pub mod discrete_log;
 pub mod eccore;
 pub mod festa;
+#[cfg(not(festa_verif))]
 pub mod fields;
+/// Verification builds (`--cfg festa_verif`) replace the parameter module.
+#[cfg(festa_verif)]
+pub mod fields {
+    include!(env!("FESTA_VERIF_FIELDS"));
+}
 pub mod finitefield;
 pub mod isogeny;
 pub mod pairing;
-- 
2.43.0


From 1eda60387bc491f940d8c6e3466204bd56bf583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 2/8] fix: scalar multiplication takes the parity of n from its
 declared bits only

With nbitlen = 0 a point of order two was returned unchanged instead of the
point at infinity when the ignored byte n[0] was odd.
---
 src/eccore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..9612eb4 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,7 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                let n_odd = cc;
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From 64caf1c2fec89ee9939ac2ab37fdb80f2ce25d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:19 +0000
Subject: [PATCH 3/8] fix: Weil pairing of dependent points, of infinity and of
 points of lower order

Linearly dependent points gave -1 instead of 1 for odd orders, and a Miller
loop that reaches infinity early (a point of lower order, or infinity itself)
tripped an assertion or divided by the line of an invalid point.
---
 src/pairing.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..7adbdd8 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -34,16 +34,18 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     result
 }
 
-/// Evaluate Tate pairing using Miller's algorithm
-/// If two points P and Q are linearly dependent, it outputs zero.
-/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
-pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+/// Miller loop. The result is zero if one of the lines meets Q, which
+/// happens only when the points are linearly dependent.
+fn miller_loop(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
     for t in (0..order.bits() - 1).rev() {
         let S = E.double(&V);
-        if S.isinfinity() == 0 {
+        if V.isinfinity() != 0 {
+            // the order of P is a proper divisor: there is no line to evaluate
+            f = f.square();
+        } else if S.isinfinity() == 0 {
             f = f.square() * eval_line(E, &V, &V, Q) / eval_line(E, &S, &-S, Q);
         } else {
             let (_, _, Qz) = Q.to_xyz();
@@ -52,7 +54,9 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
         V = S;
         if order.bit(t) {
             let S = E.add(&V, P);
-            if S.isinfinity() == 0 {
+            if V.isinfinity() != 0 || P.isinfinity() != 0 {
+                // nothing to multiply by
+            } else if S.isinfinity() == 0 {
                 f = f * eval_line(E, &V, P, Q) / eval_line(E, &S, &-S, Q);
             } else {
                 let (_, _, Qz) = Q.to_xyz();
@@ -64,6 +68,15 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
+    f
+}
+
+/// Evaluate Tate pairing using Miller's algorithm
+/// If two points P and Q are linearly dependent, it outputs zero.
+/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
+pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    let f = miller_loop(E, P, Q, order);
+
     if f.iszero() != 0 {
         return Fq::ONE;
     }
@@ -73,8 +86,17 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    if (P.isinfinity() | Q.isinfinity()) != 0 {
+        return Fq::ONE;
+    }
+
+    let ePQ = miller_loop(E, P, Q, order);
+    let eQP = miller_loop(E, Q, P, order);
+
+    // linearly dependent points
+    if (ePQ.iszero() | eQP.iszero()) != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From a4cb74bb7729a6847963af437cddefbe5cfbd95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 4/8] fix: integer square root of numbers from 65535^2 on does
 not overflow

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..63e36fa 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == n as u64 {
         return b;
     }
 
-- 
2.43.0


From 5c315245206968f0f22c2615e4f91142aba334fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 5/8] fix: isomorphisms between equal, sign-opposite and
 special curves, and the image of infinity

---
 src/eccore.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index 9612eb4..84b92d7 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -807,14 +807,37 @@ macro_rules! define_ec_core {
                     "Given curves are not isomorphic!"
                 );
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
-                let u = (Fq::THREE * v + A1) / A2;
-                let w = (u * u.square()).sqrt().0;
-                CurveIsomorphism { u, v, w }
+
+                // An isomorphism moves a point (alpha, 0) of order two to (0, 0)
+                // and divides x by s, where s^2 = 3*alpha^2 + 2*A2*alpha + 1
+                let mut alphas = vec![Fq::ZERO];
+                let (delta, has_roots) = (A2.square() - Fq::FOUR).sqrt();
+                if has_roots != 0 {
+                    alphas.push((delta - A2).half());
+                    alphas.push(-(delta + A2).half());
+                }
+                for alpha in alphas {
+                    let t = alpha.mul3() + A2;
+                    let (s, is_square) = (alpha * (t + A2) + Fq::ONE).sqrt();
+                    if is_square == 0 {
+                        continue;
+                    }
+                    for s in [s, -s] {
+                        let u = Fq::ONE / s;
+                        let (w, is_rational) = (u * u.square()).sqrt();
+                        if t.equals(&(A1 * s)) != 0 && is_rational != 0 {
+                            let v = -(alpha * u);
+                            return CurveIsomorphism { u, v, w };
+                        }
+                    }
+                }
+                panic!("Given curves are not isomorphic!");
             }
 
             pub fn eval(&self, P: &Point) -> Point {
+                if P.isinfinity() != 0 {
+                    return Point::INFINITY;
+                }
                 let (Px, Py) = P.to_xy();
                 let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
                 imP
-- 
2.43.0


From 9d8e54b762871fababd7b069296c323a3dd4ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:55 +0000
Subject: [PATCH 6/8] fix: entangled torsion basis gave up on one curve in
 about 4000

---
 src/supersingular.rs | 62 +++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 41 deletions(-)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..ade95a3 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -5,7 +5,6 @@ use crate::{
     discrete_log::{bidlp, compute_crt, xgcd_big},
     ecFESTA::{factored_kummer_isogeny, Curve, Fq, KummerLineIsogeny, Point},
     fields::{
-        FpFESTA::Fp,
         FpFESTAExt::{BASIS_ORDER, BIGUINT_MODULUS, L_POWER},
     },
     pairing::weil_pairing,
@@ -240,62 +239,43 @@ pub fn torsion_basis(E: &Curve, factored_D: &[(u32, u32)], even_power: usize) ->
 
 /// Optimized algorithm for generating k*2^l torsion basis
 pub fn entangled_torsion_basis(E: &Curve, cofactor: &BigUint) -> (Point, Point) {
-    fn precompute_elligator_tables() -> (Vec<(Fq, Fq)>, Vec<(Fq, Fq)>) {
-        let u = Fq::ZETA * Fq::TWO;
-        let mut T1 = Vec::<(Fq, Fq)>::new();
-        let mut T2 = Vec::<(Fq, Fq)>::new();
-        let mut r = Fq::ONE;
-        for _ in 0..30 {
-            let v = (Fq::ONE + &u * &r.square()).invert();
-            if v.legendre() == 1 {
-                T2.push((r, v));
-            } else {
-                T1.push((r, v));
-            }
-            r += Fq::ONE;
-        }
-
-        (T1, T2)
-    }
-
     let p = BigUint::from_slice(&BIGUINT_MODULUS);
     let p_sqrt = (p + BigUint::from(1u32)) / BigUint::from(4u32);
     let u = Fq::ZETA * Fq::TWO;
     let u0 = Fq::ONE + Fq::ZETA;
 
-    let (TQNR, TQR) = precompute_elligator_tables();
-
-    // Pick the lookup table depending on whether
-    // A = a + ib is a quadratic residue or quadratic nonresidue
+    // v = 1 / (1 + u * r^2) has to be a quadratic nonresidue when
+    // A = a + ib is a quadratic residue, and a residue otherwise
     let A = E.get_constant();
-    let T = match A.legendre() {
-        1i32 => TQNR,
-        -1i32 => TQR,
+    let v_legendre = match A.legendre() {
+        1i32 => -1i32,
+        -1i32 => 1i32,
         _ => panic!("invalid curve for entangled torsion basis algorithm"),
     };
 
-    // Look through the table to find point with
+    // Look through r = 1, 2, ... to find point with
     // rational (x, y)
-    let mut y: Option<Fq> = None;
-    let (mut s, mut c, mut d): (Fp, Fp, Fp) = (Fp::ONE, Fp::ONE, Fp::ONE);
-    let (mut x, mut r) = (Fq::ONE, Fq::ONE);
-    for (ri, v) in T.iter() {
-        (r, x) = (*ri, -A * v);
+    let mut r = Fq::ZERO;
+    let (x, s, c, d) = loop {
+        r += Fq::ONE;
+        if r.iszero() != 0 {
+            panic!("Never found a y-coordinate");
+        }
+        let v = (Fq::ONE + &u * &r.square()).invert();
+        if v.legendre() != v_legendre {
+            continue;
+        }
+        let x = -A * v;
         let t = x * (x.square() + A * x + Fq::ONE);
 
         // break when we find rational y: t = y^2
-        (c, d) = t.get_coeff();
+        let (c, d) = t.get_coeff();
         let z = c.square() + d.square();
-        s = z.pow_big(&p_sqrt);
+        let s = z.pow_big(&p_sqrt);
         if s.square().equals(&z) != 0 {
-            y = Some(t.sqrt().0);
-            break;
+            break (x, s, c, d);
         }
-    }
-
-    if y.is_none() {
-        panic!("Never found a y-coordinate, increase the lookup table size");
-    }
+    };
 
     let z = (&c + &s).half();
     let alpha = z.pow_big(&p_sqrt);
-- 
2.43.0


From 2a73280a07423e6c5ff5d040348ea80317eaf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 7/8] fix: split theta points with a vanishing row or column

A product theta point is read off as a row and a column of a rank one
matrix. The row (a, b) vanishes when the second component has a zero
coordinate and the column (b, d) when the first one has: the other
component was then returned as the point at infinity. Use the other row
(column) in these cases.
---
 src/theta.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..853f6f5 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -950,10 +950,19 @@ macro_rules! define_theta_structure {
         /// Models of Kummer lines and Galois representation,
         /// Razvan Barbulescu, Damien Robert and Nicolas Sarkis
         fn split_theta_point(P: &ThetaPoint) -> ((Fq, Fq), (Fq, Fq)) {
-            let (a, b, _, d) = P.coords();
+            let (a, b, c, d) = P.coords();
 
-            let P1 = (a, b);
-            let P2 = (b, d);
+            // Rows and columns of a matrix of rank one. One of the two rows
+            // (columns) vanishes when the other point has a zero coordinate.
+            let (mut P1, mut P2) = ((a, b), (b, d));
+
+            let P1_check = a.iszero() & b.iszero();
+            P1.0.set_cond(&c, P1_check);
+            P1.1.set_cond(&d, P1_check);
+
+            let P2_check = b.iszero() & d.iszero();
+            P2.0.set_cond(&a, P2_check);
+            P2.1.set_cond(&c, P2_check);
 
             (P1, P2)
         }
-- 
2.43.0


From f3fb2f017826f642cd28c27557ca60d6f0c29ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 8/8] fix: gluing images of points with two vanishing dual
 coordinates

The missing coordinate x was recovered with a scale computed from z or t;
when both are zero the scale was zero and x was lost. Use the translate by
the other four torsion point in this case.
---
 src/theta.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 853f6f5..b6bfc66 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -472,6 +472,7 @@ macro_rules! define_theta_structure {
         fn gluing_image(
             T: &ThetaPoint,
             T_shift: &ThetaPoint,
+            T_shift2: &ThetaPoint,
             a_inv: &Fq,
             b_inv: &Fq,
             z_idx: usize,
@@ -511,7 +512,18 @@ macro_rules! define_theta_structure {
 
             // Finally we recover x
             let xb = AyBxCtDz[1 ^ z_idx] * a_inv;
-            let x = xb * lam;
+            let mut x = xb * lam;
+
+            // When z and t are both zero, the shift above only has the value of
+            // x with an unknown scale, so we use the translate by the other four
+            // torsion point. When y is zero as well, only x is left and any
+            // scale will do.
+            let zt_check = z.iszero() & t.iszero();
+            let AzBtCxDy: [Fq; 4] = T_shift2.squared_theta().into();
+            let xc = AzBtCxDy[2 ^ z_idx] * b_inv;
+            let lam_y = y / AzBtCxDy[3 ^ z_idx];
+            x.set_cond(&(xc * lam_y), zt_check);
+            x.set_cond(&Fq::ONE, zt_check & y.iszero());
 
             // We now have values for `x,y,z,t` but to order them we need to use
             // the xor trick as above, so we pack them into an array with the
@@ -573,16 +585,18 @@ macro_rules! define_theta_structure {
                 // could use faster x-only... Something to think about but no
                 // obvious solution.
                 let P_sum_T = E1E2.add(P, &P1P2_4);
+                let P_sum_T2 = E1E2.add(P, &Q1Q2_4);
 
                 // After we have added the points, we can use the gluing formula
                 // to recover theta points on the level 2 theta structure. First we
                 // must compute the basis change as we did for the kernel:
                 let T = base_change_couple_point(&P, M);
                 let T_shift = base_change_couple_point(&P_sum_T, M);
+                let T_shift2 = base_change_couple_point(&P_sum_T2, M);
 
                 // With a point and the shift value from the kernel, we can find
                 // the image
-                let T_image = gluing_image(&T, &T_shift, &a_inv, &b_inv, z_idx);
+                let T_image = gluing_image(&T, &T_shift, &T_shift2, &a_inv, &b_inv, z_idx);
                 theta_images.push(T_image);
             }
 
-- 
2.43.0

