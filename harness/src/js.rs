//! JSON <-> field elements, points and integers.
//!
//! Conventions of cases and traces (shared with the TLA+ modules):
//!   base-field element / natural number : big-endian hex string without leading zeros
//!   extension-field element             : [re, im]
//!   affine point                        : [] (infinity) or [x, y]
//!   machine integer                     : JSON integer, or hex string when unsigned 64 bit
use festa_rs::ecFESTA::{Curve, Point};
use festa_rs::fields::{FpFESTA::Fp, FpFESTAExt::Fp2};
use num_bigint::BigUint;
use serde_json::{json, Value};

pub fn big(v: &Value) -> BigUint {
    BigUint::parse_bytes(v.as_str().expect("hex string").as_bytes(), 16).expect("hex")
}
pub fn jbig(b: &BigUint) -> Value {
    json!(b.to_str_radix(16))
}
pub fn bytes_le_fixed(b: &BigUint, len: usize) -> Vec<u8> {
    let mut v = b.to_bytes_le();
    assert!(v.len() <= len || b.bits() == 0, "harness: value too long");
    v.resize(len, 0);
    v
}
pub fn fp(v: &Value) -> Fp {
    let (x, r) = Fp::decode(&bytes_le_fixed(&big(v), Fp::ENCODED_LENGTH));
    if r != u32::MAX {
        panic!("decode rejected a canonical value");
    }
    x
}
pub fn jfp(x: &Fp) -> Value {
    let e = x.encode();
    jbig(&BigUint::from_bytes_le(&e))
}
pub fn f2(v: &Value) -> Fp2 {
    Fp2::new(&fp(&v[0]), &fp(&v[1]))
}
pub fn jf2(x: &Fp2) -> Value {
    let (a, b) = x.get_coeff();
    json!([jfp(&a), jfp(&b)])
}
pub fn pt(v: &Value) -> Point {
    if v.as_array().unwrap().is_empty() {
        Point::INFINITY
    } else {
        Point::new_xy(&f2(&v[0]), &f2(&v[1]))
    }
}
/// Affine view computed from the projective coordinates by the documented
/// convention x = X/Z, y = Y/Z, infinity iff Z = 0.
pub fn jpt(p: &Point) -> Value {
    let (x, y, z) = p.to_xyz();
    if z.iszero() != 0 {
        return json!([]);
    }
    let zi = z.invert();
    json!([jf2(&(x * zi)), jf2(&(y * zi))])
}
/// The same point with other projective coordinates (scaled by z).
pub fn rescale(p: &Point, z: &Fp2) -> Point {
    let (x, y, w) = p.to_xyz();
    let mut q = Point::INFINITY;
    let c = Curve::new(&Fp2::ZERO);
    if w.iszero() != 0 {
        c.set_xyz_nocheck(&mut q, &Fp2::ZERO, &(y * z), &Fp2::ZERO);
        if (y * z).iszero() != 0 {
            q = Point::INFINITY;
        }
    } else {
        c.set_xyz_nocheck(&mut q, &(x * z), &(y * z), &(w * z));
    }
    q
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().expect("int")
}
pub fn fac(v: &Value) -> Vec<(u32, u32)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| (int(&t[0]) as u32, int(&t[1]) as u32))
        .collect()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
pub fn hexbytes(v: &Value) -> Vec<u8> {
    let s = v.as_str().unwrap();
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn jbytes(b: &[u8]) -> Value {
    json!(b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
}
