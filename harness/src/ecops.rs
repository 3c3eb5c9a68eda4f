//! Points, scalar multiplication, validation, pairings, discrete logarithms, order tests,
//! torsion bases, curve isomorphisms and odd isogeny chains.
use crate::js::*;
use crate::{Ctx, Out};
use festa_rs::discrete_log::*;
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTAExt::Fp2;
use festa_rs::pairing::*;
use festa_rs::supersingular::*;
use num_bigint::BigUint;
use rand_core::SeedableRng;
use serde_json::{json, Value};

/// A projective representative: finite points (xz : yz : z), infinity (z*z - z : z : 0).
pub fn rep(v: &Value, z: &Fp2) -> Point {
    let c = Curve::new(&Fp2::ZERO);
    let mut q = Point::INFINITY;
    if v.as_array().unwrap().is_empty() {
        c.set_xyz_nocheck(&mut q, &(z * z - z), z, &Fp2::ZERO);
    } else {
        c.set_xyz_nocheck(&mut q, &(f2(&v[0]) * z), &(f2(&v[1]) * z), z);
    }
    q
}
pub fn curve(v: &Value) -> Curve {
    Curve::new(&f2(v))
}
pub fn flag(m: u32) -> u32 {
    match m {
        0 => 0,
        u32::MAX => 1,
        _ => 2,
    }
}
fn same(ps: &[Point]) -> bool {
    let j: Vec<Value> = ps.iter().map(jpt).collect();
    j.iter().all(|x| *x == j[0])
}
fn jcurve(c: &Curve) -> Value {
    jf2(&c.get_constant())
}
fn jpair(p: &(Point, Point)) -> Value {
    json!([jpt(&p.0), jpt(&p.1)])
}
fn basis(v: &Value) -> Option<(Point, Point)> {
    if v.as_array().unwrap().is_empty() {
        None
    } else {
        Some((pt(&v[0]), pt(&v[1])))
    }
}
/// "[domain] -> [codomain]" constants of the steps of a chain
fn jchain(start: &Curve, phi: &Vec<KummerLineIsogeny>) -> (Value, bool) {
    let mut v = vec![];
    let mut prev = *start;
    let mut ok = true;
    for k in phi {
        let c = k.get_codomain();
        v.push(jcurve(&c));
        let t = format!("{}", k);
        ok &= t == format!("domain {} -> codomain {}", prev.get_constant(), c.get_constant());
        let t = format!("{:#}", k);
        ok &= t == format!("domain {} -> codomain {}", prev.j_invariant(), c.j_invariant());
        prev = c;
    }
    (json!(v), ok)
}
pub struct SeqRng(pub rand_chacha::ChaCha20Rng);
pub fn rng(seed: u64) -> rand_chacha::ChaCha20Rng {
    rand_chacha::ChaCha20Rng::seed_from_u64(seed)
}

pub fn run(op: &str, a: &Value, _cx: &mut Ctx) -> Out {
    match op {
        // [A, P, Q, z1, z2] -> [P+Q, P-Q]
        "ec.add" => {
            let e = curve(&a[0]);
            let (p, q) = (rep(&a[1], &f2(&a[3])), rep(&a[2], &f2(&a[4])));
            let s = e.add(&p, &q);
            let mut s1 = rep(&json!([]), &Fp2::TWO);
            e.add_into(&mut s1, &p, &q);
            let mut s2 = p;
            e.addto(&mut s2, &q);
            let d = e.sub(&p, &q);
            let mut d1 = q;
            e.sub_into(&mut d1, &p, &q);
            let mut d2 = p;
            e.subfrom(&mut d2, &q);
            let d3 = e.add(&p, &-q);
            let mut v = same(&[s, s1, s2, e.add(&q, &p), e.sub(&p, &-&q)]) && same(&[d, d1, d2, d3]);
            // the same addition on a product with the operands in both places
            let e2 = Curve::new(&(-e.get_constant()));
            let tw = |x: &Point| {
                let (a, b, c) = x.to_xyz();
                e2.point_xyz_nocheck(&-a, &(Fp2::ZETA * b), &c)
            };
            let pr = EllipticProduct::new(&e, &e2);
            let (r1, r2) = pr
                .add(&CouplePoint::new(&p, &tw(&q)), &CouplePoint::new(&q, &tw(&p)))
                .points();
            v &= same(&[s, r1]) && jpt(&tw(&s)) == jpt(&r2);
            (json!([jpt(&s), jpt(&d)]), v)
        }
        // [A, P, z, k] -> [-P, 2P, 2^k P, isinfinity, on_curve, to_xy, x(2P)]
        "ec.un" => {
            let e = curve(&a[0]);
            let p = rep(&a[1], &f2(&a[2]));
            let k = int(&a[3]) as usize;
            let n = -p;
            let mut n1 = p;
            n1.set_neg();
            let mut n2 = p;
            n2.set_condneg(u32::MAX);
            let mut n3 = p;
            n3.set_condneg(0);
            let mut v = same(&[n, n1, n2, -&p]) && same(&[p, n3]);
            let d = e.double(&p);
            let mut d1 = Point::INFINITY;
            e.double_into(&mut d1, &p);
            let mut d2 = p;
            e.double_self(&mut d2);
            let (px, py, pz) = p.to_xyz();
            let (x, y, z) = e.double_from_coords(&px, &py, &pz);
            let d3 = e.point_xyz_nocheck(&x, &y, &z);
            v &= same(&[d, d1, d2, d3, e.add(&p, &p)]);
            let di = e.double_iter(&p, k);
            let (i1, i2) = EllipticProduct::new(&e, &e)
                .double_iter(&CouplePoint::new(&p, &n), k)
                .points();
            let (j1, j2) = EllipticProduct::new(&e, &e)
                .double(&CouplePoint::new(&n, &p))
                .points();
            v &= same(&[di, i1]) && same(&[-di, i2]) && same(&[-d, j1]) && same(&[d, j2]);
            let xy = p.to_xy();
            match p.to_xy_vartime() {
                None => v &= flag(p.isinfinity()) == 1,
                Some(t) => v &= flag(p.isinfinity()) == 0 && jf2(&t.0) == jf2(&xy.0) && jf2(&t.1) == jf2(&xy.1),
            }
            let (xz_x, xz_z) = p.to_xz();
            v &= jf2(&xz_x) == jf2(&px) && jf2(&xz_z) == jf2(&pz);
            let (xx, xz) = e.x_dbl_coords(&px, &pz);
            // x-only doubling loses the point (0,0) and infinity: report as a ratio
            let xd = if xz.iszero() != 0 { json!([]) } else { json!([jf2(&(xx / xz))]) };
            let mut c0 = n;
            c0.set_cond(&p, u32::MAX);
            let mut c1 = n;
            c1.set_cond(&p, 0);
            v &= same(&[c0, p]) && same(&[c1, n]);
            (
                json!([jpt(&n), jpt(&d), jpt(&di), flag(p.isinfinity()), if e.on_curve(&p) { 1 } else { 0 },
                       [jf2(&xy.0), jf2(&xy.1)], xd]),
                v,
            )
        }
        // [P, Q, z1, z2] -> flag
        "ec.eq" => {
            let (p, q) = (rep(&a[0], &f2(&a[2])), rep(&a[1], &f2(&a[3])));
            (json!(flag(p.equals(&q))), p.equals(&q) == q.equals(&p))
        }
        // [A, P, z, bytes, nbitlen] -> point
        "ec.mul" => {
            let e = curve(&a[0]);
            let p = rep(&a[1], &f2(&a[2]));
            let n = hexbytes(&a[3]);
            let l = int(&a[4]) as usize;
            let r = e.mul(&p, &n, l);
            let mut r1 = p;
            e.mul_into(&mut r1, &p, &n, l);
            (jpt(&r), same(&[r, r1]))
        }
        // [A, P, z, n] -> point (n hex); 64-bit n also through the small versions
        "ec.mulbig" => {
            let e = curve(&a[0]);
            let p = rep(&a[1], &f2(&a[2]));
            let n = big(&a[3]);
            let r = e.mul_big(&p, &n);
            let mut v = true;
            if n.bits() <= 64 {
                let d = n.to_u64_digits();
                let m = if d.is_empty() { 0 } else { d[0] };
                let mut r2 = Point::INFINITY;
                e.mul_small_into(&mut r2, &p, m);
                v &= same(&[r, e.mul_small(&p, m), r2]);
            }
            (jpt(&r), v)
        }
        // [A, x, y, z] -> [set_xy flag, point, set_xyz flag, point]: (x, y) and (xz : yz : z)
        "ec.valid" => {
            let e = curve(&a[0]);
            let (x, y, z) = (f2(&a[1]), f2(&a[2]), f2(&a[3]));
            let mut p = e.point_xy_nocheck(&Fp2::ONE, &Fp2::TWO);
            let r = e.set_xy(&mut p, &x, &y);
            let mut v = match e.point_xy_vartime(&x, &y) {
                None => r == 0,
                Some(q) => r == u32::MAX && same(&[p, q]),
            };
            let mut q = e.point_xy_nocheck(&Fp2::ONE, &Fp2::TWO);
            let (xx, yy) = if z.iszero() != 0 { (x, y) } else { (x * z, y * z) };
            let r2 = e.set_xyz(&mut q, &xx, &yy, &z);
            v &= match e.point_xyz_vartime(&xx, &yy, &z) {
                None => r2 == 0,
                Some(t) => r2 == u32::MAX && same(&[q, t]),
            };
            let n1 = e.point_xy_nocheck(&x, &y);
            let n2 = e.point_xyz_nocheck(&xx, &yy, &z);
            let mut n3 = Point::INFINITY;
            e.set_xyz_nocheck(&mut n3, &xx, &yy, &z);
            let mut n4 = Point::INFINITY;
            e.set_xy_nocheck(&mut n4, &x, &y);
            v &= same(&[n1, n4, Point::new_xy(&x, &y)]) && same(&[n2, n3]);
            let oc = [if e.on_curve(&n1) { 1 } else { 0 }, if e.on_curve(&n2) { 1 } else { 0 }];
            (json!([flag(r), jpt(&p), flag(r2), jpt(&q), oc[0], oc[1], jpt(&n2)]), v)
        }
        // [A, X, Z] -> [ok, point]
        "ec.lift" => {
            let e = curve(&a[0]);
            let (x, z) = (f2(&a[1]), f2(&a[2]));
            let px = PointX::new_xz(&x, &z);
            let (gx, gz) = px.get_xz();
            let v = jf2(&gx) == jf2(&x) && jf2(&gz) == jf2(&z);
            let (p, ok) = e.complete_pointX(&px);
            (json!([flag(ok), jpt(&p)]), v)
        }
        // [A, n] -> first n points of the enumeration
        "ec.iter" => {
            let e = curve(&a[0]);
            let n = int(&a[1]) as usize;
            let ps: Vec<Value> = e.iter().take(n).map(|p| jpt(&p)).collect();
            let qs: Vec<Value> = curve(&a[0]).iter().take(n).map(|p| jpt(&p)).collect();
            let rs: Vec<Value> = CurveIter::new(f2(&a[0])).take(n).map(|p| jpt(&p)).collect();
            let v = ps == qs && ps == rs;
            (json!(ps), v)
        }
        // [A, seed, n] -> n sampled points
        "ec.rand" => {
            let e = curve(&a[0]);
            let mut r = rng(int(&a[1]) as u64);
            let n = int(&a[2]) as usize;
            let mut v = vec![];
            for k in 0..n {
                let mut p = rep(&json!([]), &Fp2::ZERO);
                if k % 2 == 0 {
                    p = e.rand_point(&mut r);
                } else {
                    e.set_rand_point(&mut r, &mut p);
                }
                v.push(jpt(&p));
            }
            (json!(v), true)
        }
        // [A] -> [constant, j]; panics on a singular curve
        "ec.curve" => {
            let x = f2(&a[0]);
            let r = std::panic::catch_unwind(|| Curve::new(&x));
            match r {
                Err(_) => (json!([]), true),
                Ok(e) => {
                    let (e1, e2) = EllipticProduct::new(&e, &e).curves();
                    let v = jcurve(&e1) == jcurve(&e) && jcurve(&e2) == jcurve(&e);
                    (json!([jcurve(&e), jf2(&e.j_invariant())]), v)
                }
            }
        }
        // [A, P, factored order] -> flag
        "ec.order" => {
            let e = curve(&a[0]);
            let p = rep(&a[1], &f2(&a[3]));
            (json!(if point_has_factored_order(&e, &p, &fac(&a[2])) { 1 } else { 0 }), true)
        }
        "ec.f2order" => (json!(if has_factored_order(f2(&a[0]), &fac(&a[1])) { 1 } else { 0 }), true),
        // [A, P, Q, n, z1, z2] -> value
        "ec.weil" => {
            let e = curve(&a[0]);
            let (p, q) = (rep(&a[1], &f2(&a[4])), rep(&a[2], &f2(&a[5])));
            (jf2(&weil_pairing(&e, &p, &q, &big(&a[3]))), true)
        }
        "ec.tate" => {
            let e = curve(&a[0]);
            let (p, q) = (rep(&a[1], &f2(&a[4])), rep(&a[2], &f2(&a[5])));
            (jf2(&tate_pairing(&e, &p, &q, &big(&a[3]))), true)
        }
        // [beta, alpha, order] -> exponent
        "ec.bsgs" => (json!(format!("{:x}", bsgs(&f2(&a[0]), &f2(&a[1]), int(&a[2]) as u32))), true),
        "ec.phpow" => (jbig(&ph_dlp_power(&f2(&a[0]), &f2(&a[1]), int(&a[2]) as u32, int(&a[3]) as u32)), true),
        "ec.ph" => (jbig(&ph_dlp(&f2(&a[0]), &f2(&a[1]), &fac(&a[2]))), true),
        // [A, R, P, Q, fac, z] -> [a, b]
        "ec.bidlp" => {
            let e = curve(&a[0]);
            let z = f2(&a[5]);
            let (r, p, q) = (rep(&a[1], &z), rep(&a[2], &z), rep(&a[3], &Fp2::ONE));
            let f = fac(&a[4]);
            let (x, y) = bidlp(&e, &r, &p, &q, &f, None);
            let d = f.iter().fold(BigUint::from(1u32), |m, (l, k)| m * BigUint::from(*l).pow(*k));
            let w = weil_pairing(&e, &p, &q, &d);
            let (x1, y1) = bidlp(&e, &r, &p, &q, &f, Some(w));
            (json!([jbig(&x), jbig(&y)]), x == x1 && y == y1)
        }
        // [A, imP, imQ, fac, basis] -> s
        "ec.kernel" => {
            let e = curve(&a[0]);
            let s = compute_canonical_kernel(&e, &pt(&a[1]), &pt(&a[2]), &fac(&a[3]), basis(&a[4]));
            (jbig(&s), true)
        }
        // [A, fac, even] -> [P, Q]
        "ec.basis" => {
            let e = curve(&a[0]);
            let b = torsion_basis(&e, &fac(&a[1]), int(&a[2]) as usize);
            let c = torsion_basis(&curve(&a[0]), &fac(&a[1]), int(&a[2]) as usize);
            (jpair(&b), jpair(&b) == jpair(&c))
        }
        // [A, cofactor] -> [P, Q]
        "ec.ebasis" => {
            let e = curve(&a[0]);
            let b = entangled_torsion_basis(&e, &big(&a[1]));
            let c = entangled_torsion_basis(&curve(&a[0]), &big(&a[1]));
            (jpair(&b), jpair(&b) == jpair(&c))
        }
        // [A, fac, even] -> point of that order; the deterministic and the random generator
        "ec.genpt" => {
            let e = curve(&a[0]);
            let p = generate_point_order_factored_D(&e, &fac(&a[1]), int(&a[2]) as usize);
            let q = generate_point_order_factored_D(&e, &fac(&a[1]), int(&a[2]) as usize);
            (jpt(&p), same(&[p, q]))
        }
        "ec.genrnd" => {
            let e = curve(&a[0]);
            let p = generate_random_point_order_factored_D(&e, &fac(&a[1]), int(&a[2]) as usize);
            (jpt(&p), true)
        }
        // [A, P, k, even, z] -> [k]P
        "ec.clear" => {
            let e = curve(&a[0]);
            (jpt(&clear_cofactor(&e, &rep(&a[1], &f2(&a[4])), &big(&a[2]), int(&a[3]) as usize)), true)
        }
        // [A1, A2, points, z] -> images
        "ec.isom" => {
            let (e1, e2) = (curve(&a[0]), curve(&a[1]));
            let z = f2(&a[3]);
            let f = CurveIsomorphism::new(&e1, &e2);
            let r: Vec<Value> = arr(&a[2]).iter().map(|p| jpt(&f.eval(&rep(p, &z)))).collect();
            (json!(r), true)
        }
        // [A, K, fac, points, zk, zp] -> [codomain constants of the steps, images, final constant]
        "ec.chain" => {
            let e = curve(&a[0]);
            let k = rep(&a[1], &f2(&a[4]));
            let z = f2(&a[5]);
            let f = fac(&a[2]);
            let phi = factored_kummer_isogeny(&e, &k, &f);
            let (steps, mut v) = jchain(&e, &phi);
            let mut last = e;
            let im: Vec<Value> = arr(&a[3])
                .iter()
                .map(|p| {
                    let (c, q) = evaluate_isogeny_chain(&e, &rep(p, &z), &phi);
                    last = c;
                    jpt(&q)
                })
                .collect();
            let (c, q) = evaluate_isogeny_chain(&e, &k, &vec![]);
            v &= jcurve(&c) == jcurve(&e) && same(&[q, k]);
            if phi.len() == 1 {
                let g = KummerLineIsogeny::new(&e, &k, f[0].0 as usize);
                v &= jcurve(&g.get_codomain()) == jcurve(&phi[0].get_codomain());
                for (p, w) in arr(&a[3]).iter().zip(im.iter()) {
                    v &= jpt(&g.evaluate_isogeny(&rep(p, &z))) == *w;
                }
            }
            (json!([steps, im, jcurve(&last)]), v)
        }
        // [A, K, fac, P, Q, torsion order, degree] -> [final constant, imP, imQ]
        "ec.chainbasis" => {
            let e = curve(&a[0]);
            let phi = factored_kummer_isogeny(&e, &pt(&a[1]), &fac(&a[2]));
            let (c, (p, q)) = evaluate_isogeny_chain_for_basis(&e, &(pt(&a[3]), pt(&a[4])), &phi, &big(&a[5]), &big(&a[6]));
            (json!([jcurve(&c), jpt(&p), jpt(&q)]), true)
        }
        // [A, fac, m, basis, points] -> [codomain, images, basis used]
        "ec.scalar" => {
            let e = curve(&a[0]);
            let f = fac(&a[1]);
            let (phi, c) = isogeny_from_scalar_x_only(&e, &f, &big(&a[2]), basis(&a[3]));
            let (steps, v) = jchain(&e, &phi);
            let im: Vec<Value> = arr(&a[4]).iter().map(|p| jpt(&evaluate_isogeny_chain(&e, &pt(p), &phi).1)).collect();
            let b = match basis(&a[3]) {
                Some(b) => b,
                None => torsion_basis(&e, &f, festa_rs::fields::FpFESTAExt::L_POWER as usize),
            };
            (json!([jcurve(&c), im, steps, jpair(&b)]), v)
        }
        // [A, fac, steps, points] -> [codomains of the steps, codomain, images]
        "ec.random" => {
            let e = curve(&a[0]);
            let (phi, c) = random_isogeny_x_only(&e, &fac(&a[1]), int(&a[2]) as usize);
            let (steps, v) = jchain(&e, &phi);
            let im: Vec<Value> = arr(&a[3]).iter().map(|p| jpt(&evaluate_isogeny_chain(&e, &pt(p), &phi).1)).collect();
            (json!([steps, jcurve(&c), im]), v)
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
