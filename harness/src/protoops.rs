//! The protocol: keys, trapdoor evaluation and inversion, serialisation, constants.
use crate::ecops::curve;
use crate::js::*;
use crate::{Ctx, Out};
use festa_rs::ecFESTA::{Curve, Point};
use festa_rs::festa::*;
use festa_rs::fields::FpFESTAExt::*;
use festa_rs::supersingular::{entangled_torsion_basis, torsion_basis};
use num_bigint::BigUint;
use serde_json::{json, Value};
use std::sync::OnceLock;

/// Objects kept between the events of a history.
pub enum Obj {
    Key(PublicKey, SecretKey),
}

fn shared() -> &'static FESTACrypto {
    static C: OnceLock<FESTACrypto> = OnceLock::new();
    C.get_or_init(FESTACrypto::new)
}
fn pair(p: &(Point, Point)) -> Value {
    json!([jpt(&p.0), jpt(&p.1)])
}
fn jc(e: &Curve) -> Value {
    jf2(&e.get_constant())
}
fn msg(v: &Value) -> TrapdoorInput {
    TrapdoorInput::new(&big(&v[0]), &big(&v[1]), &(big(&v[2]), big(&v[3])))
}
fn jmsg(m: &TrapdoorInput) -> Value {
    let (s1, s2, (b11, b22)) = m.extract();
    json!([jbig(&s1), jbig(&s2), jbig(&b11), jbig(&b22)])
}
fn jout(o: &TrapdoorOutput) -> Value {
    let (e1, r1, s1, e2, r2, s2) = o.extract();
    json!([jc(&e1), jpt(&r1), jpt(&s1), jc(&e2), jpt(&r2), jpt(&s2)])
}
fn jpk(pk: &PublicKey) -> Value {
    let (ea, r, s) = pk.extract();
    json!([jc(&ea), jpt(&r), jpt(&s)])
}
fn jsk(sk: &SecretKey) -> Value {
    let (e, b1, b2, (a11, a22)) = sk.extract();
    json!([jc(&e), pair(&b1), pair(&b2), jbig(&a11), jbig(&a22)])
}
/// A fresh key pair; with masks given, the generated pair is re-masked.
fn keypair(f: &FESTACrypto, masks: &Value) -> (PublicKey, SecretKey) {
    let (pk, sk) = f.keygen();
    if arr(masks).is_empty() {
        return (pk, sk);
    }
    let (ea, r, s) = pk.extract();
    let (e, b1, b2, (a11, a22)) = sk.extract();
    let l = BigUint::from(1u32) << L_POWER;
    let (m1, m2) = (big(&masks[0]), big(&masks[1]));
    // independent of the helpers under test: inverse of an odd number modulo 2^L
    let inv = |x: &BigUint| x.modpow(&((BigUint::from(1u32) << (L_POWER - 2)) - 1u32), &l);
    let r2 = ea.mul_big(&r, &((inv(&a11) * &m1) % &l));
    let s2 = ea.mul_big(&s, &((inv(&a22) * &m2) % &l));
    (PublicKey::new(&ea, &r2, &s2), SecretKey::new(&e, &b1, &b2, &(m1, m2)))
}
fn jints(v: &[u32]) -> Value {
    jbig(&BigUint::from_slice(v))
}
fn jfac(v: &[(u32, u32)]) -> Value {
    json!(v.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>())
}

pub fn run(op: &str, a: &Value, cx: &mut Ctx) -> Out {
    match op {
        "pr.params" => (
            json!([
                jints(&BIGUINT_MODULUS),
                jints(&BASIS_ORDER),
                [jints(&D1), jints(&D2), jints(&DA), jints(&DA1), jints(&DA2)],
                [jfac(&D1_FACTORED), jfac(&D2_FACTORED), jfac(&DA_FACTORED), jfac(&DA1_FACTORED), jfac(&DA2_FACTORED)],
                [jints(&M1), jints(&M2)],
                L_POWER,
                THETA_ISOGENY_LENGTH,
                THETA_STRATEGY.to_vec(),
                [jfp(&P0x), jfp(&P0y), jfp(&Q0x), jfp(&Q0y)],
                festa_rs::fields::FpFESTA::Fp::ENCODED_LENGTH,
                Fp2::ENCODED_LENGTH
            ]),
            true,
        ),
        // [masks] : generates the key of the history
        // -> [[Pb, Qb], [Pd1, Qd1], pk, sk, basis of EA[d2], basis of EA'[d2]]
        "pr.keygen" => {
            let f = FESTACrypto::new();
            let (pk, sk) = keypair(&f, &a[0]);
            let e0 = Curve::new(&(Fp2::TWO + Fp2::FOUR));
            let cof = BigUint::from_slice(&BASIS_ORDER) >> L_POWER;
            let lb = entangled_torsion_basis(&e0, &cof);
            let d1b = torsion_basis(&e0, &D1_FACTORED, L_POWER as usize);
            let ba = torsion_basis(&pk.extract().0, &D2_FACTORED, L_POWER as usize);
            let bap = torsion_basis(&sk.extract().0, &D2_FACTORED, L_POWER as usize);
            let r = json!([pair(&lb), pair(&d1b), jpk(&pk), jsk(&sk), pair(&ba), pair(&bap)]);
            cx.kv.insert("key".to_string(), Obj::Key(pk, sk));
            (r, true)
        }
        // [message] -> trapdoor output; repeated with another instance
        "pr.eval" => {
            let Some(Obj::Key(pk, _)) = cx.kv.get("key") else { panic!("no key") };
            let o = jout(&shared().trapdoor_eval(pk, &msg(&a[0])));
            let o2 = jout(&FESTACrypto::new().trapdoor_eval(pk, &msg(&a[0])));
            let v = o == o2;
            (o, v)
        }
        // [messages] -> what the inversion of each output returns; every third time the
        // key and the output travel through their encodings
        "pr.roundtrip" => {
            let Some(Obj::Key(pk, sk)) = cx.kv.get("key") else { panic!("no key") };
            let mut r = Vec::new();
            for (i, m) in arr(&a[0]).iter().enumerate() {
                let o = shared().trapdoor_eval(pk, &msg(m));
                let back = if i % 3 == 1 {
                    let o = TrapdoorOutput::decode(&o.encode());
                    let sk = SecretKey::decode(&sk.encode());
                    shared().trapdoor_inverse(&o, &sk)
                } else {
                    shared().trapdoor_inverse(&o, sk)
                };
                r.push(jmsg(&back));
            }
            (json!(r), true)
        }
        // [A, R, P, Q] -> masks recovered
        "pr.diag" => {
            let (x, y) = shared().recover_diagB(&curve(&a[0]), &pt(&a[1]), &pt(&a[2]), &pt(&a[3]));
            (json!([jbig(&x), jbig(&y)]), true)
        }
        // [A, [P, Q], [R, S], a11, a22] -> [length, bytes, decoded, encoded again]
        "pr.sk" => {
            let two = |v: &Value| (pt(&v[0]), pt(&v[1]));
            let sk = SecretKey::new(&curve(&a[0]), &two(&a[1]), &two(&a[2]), &(big(&a[3]), big(&a[4])));
            let b = sk.encode();
            let d = SecretKey::decode(&b);
            (json!([b.len(), jbytes(&b), jsk(&d), jbytes(&d.encode())]), jsk(&sk) == json!([a[0], a[1], a[2], a[3], a[4]]))
        }
        // [A1, R1, S1, A2, R2, S2] -> the same
        "pr.out" => {
            let o = TrapdoorOutput::new(&curve(&a[0]), &pt(&a[1]), &pt(&a[2]), &curve(&a[3]), &pt(&a[4]), &pt(&a[5]));
            let b = o.encode();
            let d = TrapdoorOutput::decode(&b);
            (json!([b.len(), jbytes(&b), jout(&d), jbytes(&d.encode())]), jout(&o) == *a)
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
