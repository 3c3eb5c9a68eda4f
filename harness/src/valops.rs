//! Equality, hash codes and printed forms.
use crate::js::*;
use crate::Out;
use festa_rs::ecFESTA::Curve;
use festa_rs::festa::TrapdoorInput;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn std_hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn hex(x: u64) -> Value {
    json!(format!("{:x}", x))
}
/// The same value reached in other ways.
fn ways1(x: &Fp) -> Vec<Fp> {
    let mut v = vec![x + Fp::ONE - Fp::ONE, -(-*x), x * Fp::ONE, Fp::ZERO - (Fp::ZERO - x), x.half() + x.half(), x.mul2().half()];
    v.push(Fp::decode(&x.encode()).0);
    v.push((x * Fp::THREE) / Fp::THREE);
    v.push(x.mul_small(-1) * Fp::MINUS_ONE);
    v
}
fn ways2(x: &Fp2) -> Vec<Fp2> {
    let mut v = vec![x + Fp2::ONE - Fp2::ONE, -(-*x), x * Fp2::ONE, Fp2::ZERO - (Fp2::ZERO - x), x.half() + x.half(), x.mul2().half()];
    v.push(Fp2::decode(&x.encode()).0);
    v.push((x * Fp2::THREE) / Fp2::THREE);
    v.push(x.conj().conj());
    v.push(-((x * Fp2::ZETA) * Fp2::ZETA));
    v
}
fn msg(v: &Value) -> TrapdoorInput {
    TrapdoorInput::new(&big(&v[0]), &big(&v[1]), &(big(&v[2]), big(&v[3])))
}

pub fn run(op: &str, a: &Value) -> Out {
    match op {
        // [values] -> [[hash, hashcode, text] per value, matrix of equality]
        "va.fp" => {
            let xs: Vec<Fp> = arr(&a[0]).iter().map(fp).collect();
            let mut v = true;
            let mut rows = vec![];
            for x in &xs {
                for w in ways1(x) {
                    v &= w.equals(x) == u32::MAX && std_hash(&w) == std_hash(x) && w.hashcode() == x.hashcode() && w.to_string() == x.to_string();
                }
                rows.push(json!([hex(std_hash(x)), hex(x.hashcode()), x.to_string()]));
            }
            let eq: Vec<Vec<u32>> = xs.iter().map(|x| xs.iter().map(|y| x.equals(y) & 1).collect()).collect();
            for x in &xs {
                for y in &xs {
                    v &= x.equals(y) == y.equals(x) && (x - y).iszero() == x.equals(y);
                }
            }
            (json!([rows, eq]), v)
        }
        // [values] -> [[hash, hashcode, hashcodes of the coordinates, text] per value, matrix of equality, number of entries of a set]
        "va.f2" => {
            let xs: Vec<Fp2> = arr(&a[0]).iter().map(f2).collect();
            let mut v = true;
            let mut rows = vec![];
            let mut set = HashSet::new();
            for (x, c) in xs.iter().zip(arr(&a[0])) {
                for w in ways2(x) {
                    v &= w == *x && !(w != *x) && std_hash(&w) == std_hash(x) && w.hashcode() == x.hashcode() && w.to_string() == x.to_string();
                    set.insert(w);
                }
                set.insert(*x);
                rows.push(json!([hex(std_hash(x)), hex(x.hashcode()), hex(fp(&c[0]).hashcode()), hex(fp(&c[1]).hashcode()), x.to_string()]));
            }
            let eq: Vec<Vec<u32>> = xs.iter().map(|x| xs.iter().map(|y| (x == y) as u32).collect()).collect();
            for x in &xs {
                for y in &xs {
                    v &= (x != y) == !(x == y) && (x.equals(y) == u32::MAX) == (x == y) && (x - y).iszero() == x.equals(y);
                }
            }
            (json!([rows, eq, set.len()]), v)
        }
        // [messages] -> [texts, matrix of equality]
        "va.msg" => {
            let ms: Vec<TrapdoorInput> = arr(&a[0]).iter().map(msg).collect();
            let mut v = true;
            let eq: Vec<Vec<u32>> = ms.iter().map(|x| ms.iter().map(|y| (x == y) as u32).collect()).collect();
            for (m, c) in ms.iter().zip(arr(&a[0])) {
                let (s1, s2, (b1, b2)) = m.extract();
                v &= json!([jbig(&s1), jbig(&s2), jbig(&b1), jbig(&b2)]) == *c && !(*m != msg(c));
            }
            (json!([ms.iter().map(|m| m.to_string()).collect::<Vec<_>>(), eq]), v)
        }
        // [A] -> text
        "va.curve" => (json!(Curve::new(&f2(&a[0])).to_string()), true),
        _ => panic!("harness: unknown op {}", op),
    }
}
