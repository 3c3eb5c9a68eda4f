//! The two-dimensional chain: codomain and images for given strategies.
use crate::ecops::{curve, rep};
use crate::js::*;
use crate::{Ctx, Out};
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTAExt::{Fp2, THETA_STRATEGY};
use festa_rs::thetaFESTA::*;
use serde_json::{json, Value};

fn couple(v: &Value, z: &Fp2, w: &Fp2) -> CouplePoint {
    CouplePoint::new(&rep(&v[0], z), &rep(&v[1], w))
}
fn out(t: &(EllipticProduct, Vec<CouplePoint>)) -> Value {
    let (e3, e4) = t.0.curves();
    let im: Vec<Value> = t
        .1
        .iter()
        .map(|c| {
            let (p, q) = c.points();
            json!([jpt(&p), jpt(&q)])
        })
        .collect();
    json!([jf2(&e3.get_constant()), jf2(&e4.get_constant()), im])
}

fn jpair(c: &CouplePoint) -> Value {
    let (p, q) = c.points();
    json!([jpt(&p), jpt(&q)])
}
fn jq(v: &[Fp2; 4]) -> Value {
    json!([jf2(&v[0]), jf2(&v[1]), jf2(&v[2]), jf2(&v[3])])
}
fn jt(v: (Fp2, Fp2, Fp2, Fp2)) -> Value {
    jq(&[v.0, v.1, v.2, v.3])
}
fn jstructure(s: &ThetaStructure, p: &ThetaPoint, n: usize) -> Value {
    let mut d = *p;
    s.set_double_self(&mut d);
    json!([
        jq(&s.null_point().list()),
        jq(&s.double_point(p).list()),
        jq(&d.list()),
        jq(&s.double_iter(p, n).list()),
        jq(&s.double_point(&s.null_point()).list())
    ])
}

pub fn run(op: &str, a: &Value, _cx: &mut Ctx) -> Out {
    match op {
        // [A1, A2, (P1, P2), (Q1, Q2), points, n, strategies, z1, z2, ...]
        // -> results, the first without a strategy
        "th.chain" => {
            let pr = EllipticProduct::new(&curve(&a[0]), &curve(&a[1]));
            let (z, w) = (f2(&a[7]), f2(&a[8]));
            let (p, q) = (couple(&a[2], &z, &w), couple(&a[3], &w, &z));
            let pts: Vec<CouplePoint> = arr(&a[4]).iter().map(|c| couple(c, &w, &z)).collect();
            let n = int(&a[5]) as usize;
            let mut r = vec![out(&product_isogeny_no_strategy(&pr, &p, &q, &pts, n))];
            for s in arr(&a[6]) {
                let mut st: Vec<usize> = arr(s).iter().map(|x| int(x) as usize).collect();
                if st == [0] {
                    st = THETA_STRATEGY.to_vec();
                }
                r.push(out(&product_isogeny(&pr, &p, &q, &pts, n, &st)));
            }
            (json!(r), true)
        }
        // [O, P, n, pairs]
        "th.dbl" => {
            let (o, p) = (arr(&a[0]), arr(&a[1]));
            let o: Vec<Fp2> = o.iter().map(f2).collect();
            let p: Vec<Fp2> = p.iter().map(f2).collect();
            let n = int(&a[2]) as usize;
            let op = ThetaPoint::new(&o[0], &o[1], &o[2], &o[3]);
            let pp = ThetaPoint::from_coords(&p[0], &p[1], &p[2], &p[3]);
            let s1 = ThetaStructure::new_from_coords(&o[0], &o[1], &o[2], &o[3]);
            let s2 = ThetaStructure::new_from_point(&op);
            (
                json!([
                    jstructure(&s1, &pp, n),
                    jstructure(&s2, &pp, n),
                    jt(ThetaPoint::new(&p[0], &p[1], &p[2], &p[3]).coords()),
                    jq(&pp.list()),
                    jt(pp.hadamard()),
                    jt(pp.squared_theta())
                ]),
                true,
            )
        }
        // [A1, A2, (P1, P2), (Q1, Q2), n, z, w]
        "th.prod" => {
            let e = EllipticProduct::new(&curve(&a[0]), &curve(&a[1]));
            let (z, w) = (f2(&a[5]), f2(&a[6]));
            let (p, q) = (couple(&a[2], &z, &w), couple(&a[3], &w, &z));
            let n = int(&a[4]) as usize;
            let (e1, e2) = e.curves();
            (
                json!([
                    [jf2(&e1.get_constant()), jf2(&e2.get_constant())],
                    jpair(&p),
                    jpair(&e.add(&p, &q)),
                    jpair(&e.double(&p)),
                    jpair(&e.double_iter(&p, n))
                ]),
                true,
            )
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
