//! Base field and quadratic extension.
use crate::js::*;
use crate::{Ctx, Out};
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn flag(x: u32) -> u32 {
    match x {
        0 => 0,
        u32::MAX => 1,
        _ => 2,
    }
}
fn ctl(v: &Value) -> u32 {
    if int(v) != 0 {
        u32::MAX
    } else {
        0
    }
}
/// signed machine integer written [sign, hex magnitude]
fn signed(v: &Value) -> i128 {
    let m = i128::from_str_radix(v[1].as_str().unwrap(), 16).unwrap();
    if int(&v[0]) < 0 {
        -m
    } else {
        m
    }
}
fn hashof<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn u64of(v: &Value) -> u64 {
    u64::from_str_radix(v.as_str().unwrap(), 16).unwrap()
}

// Every spelling of a binary operator; true if all agree.
macro_rules! spell {
    ($x:expr, $y:expr, $op:tt, $opa:tt, $same:expr) => {{
        let x = $x;
        let y = $y;
        let r = x $op y;
        let mut a = x;
        a $opa y;
        let mut b = x;
        b $opa &y;
        let ok = $same(&r, &(x $op &y)) && $same(&r, &(&x $op y)) && $same(&r, &(&x $op &y))
            && $same(&r, &a) && $same(&r, &b);
        (r, ok)
    }};
}
// value-returning method and in-place method
macro_rules! unary {
    ($x:expr, $f:ident, $g:ident, $ok:ident, $same:expr) => {{
        let r = $x.$f();
        let mut a = $x;
        a.$g();
        $ok &= $same(&r, &a);
        r
    }};
}

fn s1(a: &Fp, b: &Fp) -> bool {
    a.encode()[..] == b.encode()[..]
}
fn s2(a: &Fp2, b: &Fp2) -> bool {
    a.encode()[..] == b.encode()[..]
}

pub fn run(op: &str, a: &Value, cx: &mut Ctx) -> Out {
    let mut ok = true;
    let r = match op {
        // ---------------------------------------------------------- Fp
        "fp.bin" => {
            let x = fp(&a[0]);
            let mut out = Vec::new();
            for y in arr(&a[1]) {
                let y = fp(y);
                let (s, k1) = spell!(x, y, +, +=, s1);
                let (d, k2) = spell!(x, y, -, -=, s1);
                let (m, k3) = spell!(x, y, *, *=, s1);
                ok &= k1 & k2 & k3;
                out.push(json!([jfp(&s), jfp(&d), jfp(&m)]));
            }
            json!(out)
        }
        "fp.un" => {
            let x = fp(&a[0]);
            let n = -x;
            ok &= s1(&n, &(-&x));
            let mut t = x;
            t.set_neg();
            ok &= s1(&n, &t);
            let sq = unary!(x, square, set_square, ok, s1);
            let h = unary!(x, half, set_half, ok, s1);
            let m2 = unary!(x, mul2, set_mul2, ok, s1);
            let m3 = unary!(x, mul3, set_mul3, ok, s1);
            let m4 = unary!(x, mul4, set_mul4, ok, s1);
            let m8 = unary!(x, mul8, set_mul8, ok, s1);
            json!([jfp(&n), jfp(&sq), jfp(&h), jfp(&m2), jfp(&m3), jfp(&m4), jfp(&m8), flag(x.iszero())])
        }
        "fp.small" => {
            let x = fp(&a[0]);
            let mut out = Vec::new();
            for k in arr(&a[1]) {
                let k = signed(k) as i32;
                let r = x.mul_small(k);
                let mut t = x;
                t.set_mul_small(k);
                ok &= s1(&r, &t);
                out.push(jfp(&r));
            }
            json!(out)
        }
        "fp.sop" => {
            let (w, x, y, z) = (fp(&a[0]), fp(&a[1]), fp(&a[2]), fp(&a[3]));
            json!([
                jfp(&Fp::sum_of_products(&w, &x, &y, &z)),
                jfp(&Fp::difference_of_products(&w, &x, &y, &z))
            ])
        }
        "fp.pow" => {
            // x, exponent, leading garbage bits (below), extra zero/garbage above
            let x = fp(&a[0]);
            let e = big(&a[1]);
            let n = int(&a[2]) as usize; // ebitlen
            let off = int(&a[3]) as usize; // eoff for pow_ext
            let r = if n == 0 {
                x.pow(&[0u8; 1], 0)
            } else {
                x.pow(&bytes_le_fixed(&e, (n + 7) / 8), n)
            };
            let g = big(&a[4]); // garbage bits below eoff and above the window
            let w = (&g % (num_bigint::BigUint::from(1u32) << off)) + (&e << off) + (&g << (off + n));
            let wb = {
                let mut v = w.to_bytes_le();
                v.resize(std::cmp::max(v.len(), (off + n + 7) / 8 + 1), 0);
                v
            };
            let r2 = x.pow_ext(&wb, off, n);
            let mut t = x;
            t.set_pow_ext(&wb, off, n);
            ok &= s1(&t, &r2);
            ok &= s1(&r, &r2);
            let mut t = x;
            let mut eb = e.to_bytes_le();
            eb.resize((n + 7) / 8 + 1, 0);
            t.set_pow(&eb, n);
            ok &= s1(&t, &r);
            if e.bits() as usize == n {
                ok &= s1(&x.pow_big(&e), &r);
            }
            jfp(&r)
        }
        "fp.from" => {
            let s = signed(&a[0]);
            let mut out = Vec::new();
            if s >= i32::MIN as i128 && s <= i32::MAX as i128 {
                out.push(jfp(&Fp::from_i32(s as i32)));
            }
            if s >= i64::MIN as i128 && s <= i64::MAX as i128 {
                out.push(jfp(&Fp::from_i64(s as i64)));
            }
            if s >= 0 && s <= u32::MAX as i128 {
                out.push(jfp(&Fp::from_u32(s as u32)));
            }
            if s >= 0 && s <= u64::MAX as i128 {
                out.push(jfp(&Fp::from_u64(s as u64)));
            }
            json!(out)
        }
        "fp.sel" => {
            let (x, y) = (fp(&a[0]), fp(&a[1]));
            let c = ctl(&a[2]);
            let r = Fp::select(&x, &y, c);
            let mut t = Fp::THREE;
            t.set_select(&x, &y, c);
            ok &= s1(&t, &r);
            let mut t = x;
            t.set_cond(&y, c);
            let mut n = x;
            n.set_condneg(c);
            let (mut u, mut v) = (x, y);
            Fp::condswap(&mut u, &mut v, c);
            json!([jfp(&r), jfp(&t), jfp(&n), jfp(&u), jfp(&v)])
        }
        "fp.eq" => {
            // equality of two values reached by different computations
            let (x, y, z) = (fp(&a[0]), fp(&a[1]), fp(&a[2]));
            // (x + z) - z against y, and (x - z) + z against y
            let u = (x + z) - z;
            let v = (x - z) + z;
            let e = |p: &Fp, q: &Fp| flag(p.equals(q));
            ok &= e(&u, &v) == 1 && u.hashcode() == v.hashcode() && hashof(&u) == hashof(&v);
            ok &= e(&u, &y) == e(&y, &v);
            if s1(&x, &y) {
                ok &= u.hashcode() == y.hashcode() && hashof(&u) == hashof(&y);
            }
            json!([e(&u, &y), flag((u - y).iszero())])
        }
        "fp.inv" => {
            let x = fp(&a[0]);
            let i = unary!(x, invert, set_invert, ok, s1);
            ok &= s1(&i, &(Fp::ONE / x));
            json!([jfp(&i), x.legendre()])
        }
        "fp.div" => {
            let x = fp(&a[0]);
            let mut out = Vec::new();
            for y in arr(&a[1]) {
                let y = fp(y);
                let (q, k) = spell!(x, y, /, /=, s1);
                ok &= k;
                out.push(jfp(&q));
            }
            json!(out)
        }
        "fp.sqrt" => {
            let x = fp(&a[0]);
            let (s, c) = x.sqrt();
            let mut t = x;
            let ct = t.set_sqrt();
            ok &= ct == c && s1(&t, &s);
            let (f, d) = x.fourth_root();
            let mut t = x;
            let dt = t.set_fourth_root();
            ok &= dt == d && s1(&t, &f);
            json!([jfp(&s), flag(c), jfp(&f), flag(d)])
        }
        "fp.enc" => {
            let x = fp(&a[0]);
            let e = x.encode();
            let (y, c) = Fp::decode(&e);
            json!([jbytes(&e), jfp(&y), flag(c), x.to_string()])
        }
        "fp.dec" => {
            let b = hexbytes(&a[0]);
            let (y, c) = Fp::decode(&b);
            let z = Fp::decode_reduce(&b);
            let mut t = Fp::THREE;
            t.set_decode_reduce(&b);
            ok &= s1(&t, &z);
            json!([jfp(&y), flag(c), jfp(&z)])
        }
        "fp.rand" => {
            // canonical, reproducible from the generator state
            let mut r1 = ChaCha20Rng::seed_from_u64(int(&a[0]) as u64);
            let mut r2 = r1.clone();
            let x = Fp::rand(&mut r1);
            let mut y = Fp::ONE;
            y.set_rand(&mut r2);
            ok &= s1(&x, &y);
            jfp(&x)
        }
        // history of in-place operations on registers
        "fp.init" => {
            cx.fp = arr(&a[0]).iter().map(fp).collect();
            json!(cx.fp.iter().map(jfp).collect::<Vec<_>>())
        }
        "fp.step" => {
            let k = a[0].as_str().unwrap();
            let i = int(&a[1]) as usize;
            let j = int(&a[2]) as usize;
            let l = int(&a[3]) as usize;
            let n = int(&a[4]) as i32;
            let r = &mut cx.fp;
            let (x, y, z) = (r[i], r[j], r[l]);
            match k {
                "add" => r[i] += y,
                "sub" => r[i] -= &y,
                "mul" => r[i] *= &y,
                "div" => r[i] /= y,
                "neg" => r[i].set_neg(),
                "square" => r[i].set_square(),
                "half" => r[i].set_half(),
                "mul2" => r[i].set_mul2(),
                "mul3" => r[i].set_mul3(),
                "mul4" => r[i].set_mul4(),
                "mul8" => r[i].set_mul8(),
                "small" => r[i].set_mul_small(n),
                "cond" => r[i].set_cond(&y, if n & 1 == 1 { u32::MAX } else { 0 }),
                "condneg" => r[i].set_condneg(if n & 1 == 1 { u32::MAX } else { 0 }),
                "swap" => {
                    let (mut u, mut v) = (x, y);
                    Fp::condswap(&mut u, &mut v, if n & 1 == 1 { u32::MAX } else { 0 });
                    r[j] = v;
                    r[i] = u;
                }
                "inv" => r[i].set_invert(),
                "sqrt" => {
                    r[i].set_sqrt();
                }
                "sop" => r[i] = Fp::sum_of_products(&x, &y, &z, &y),
                "dop" => r[i] = Fp::difference_of_products(&x, &y, &z, &x),
                "copy" => r[i] = y,
                _ => panic!("harness: step {}", k),
            }
            json!(r.iter().map(jfp).collect::<Vec<_>>())
        }
        // ---------------------------------------------------------- Fp2
        "f2.bin" => {
            let x = f2(&a[0]);
            let mut out = Vec::new();
            for y in arr(&a[1]) {
                let y = f2(y);
                let (s, k1) = spell!(x, y, +, +=, s2);
                let (d, k2) = spell!(x, y, -, -=, s2);
                let (m, k3) = spell!(x, y, *, *=, s2);
                ok &= k1 & k2 & k3;
                ok &= s2(&m, &x.mul_old(y)) && s2(&m, &x.mul_new(y));
                let mut t = x;
                t.set_mul(&y);
                ok &= s2(&m, &t);
                ok &= (flag(x.equals(&y)) == 1) == (x == y);
                out.push(json!([jf2(&s), jf2(&d), jf2(&m), flag(x.equals(&y))]));
            }
            json!(out)
        }
        "f2.un" => {
            let x = f2(&a[0]);
            let n = -x;
            ok &= s2(&n, &(-&x));
            let mut t = x;
            t.set_neg();
            ok &= s2(&n, &t);
            let cj = unary!(x, conj, set_conj, ok, s2);
            let sq = unary!(x, square, set_square, ok, s2);
            let h = unary!(x, half, set_half, ok, s2);
            let m2 = unary!(x, mul2, set_mul2, ok, s2);
            let m3 = unary!(x, mul3, set_mul3, ok, s2);
            let m4 = unary!(x, mul4, set_mul4, ok, s2);
            let m8 = unary!(x, mul8, set_mul8, ok, s2);
            json!([jf2(&n), jf2(&cj), jf2(&sq), jf2(&h), jf2(&m2), jf2(&m3), jf2(&m4), jf2(&m8), flag(x.iszero())])
        }
        "f2.small" => {
            let x = f2(&a[0]);
            let mut out = Vec::new();
            for k in arr(&a[1]) {
                let k = signed(k) as i32;
                let r = x.mul_small(k);
                let mut t = x;
                t.set_mul_small(k);
                ok &= s2(&r, &t);
                out.push(jf2(&r));
            }
            json!(out)
        }
        "f2.pow" => {
            let x = f2(&a[0]);
            let e = big(&a[1]);
            let n = int(&a[2]) as usize;
            let off = int(&a[3]) as usize;
            let g = big(&a[4]);
            let mut eb = e.to_bytes_le();
            eb.resize((n + 7) / 8 + 1, 0);
            let r = x.pow(&eb, n);
            let mut t = x;
            t.set_pow(&eb, n);
            ok &= s2(&t, &r);
            let w = (&g % (num_bigint::BigUint::from(1u32) << off)) + (&e << off) + (&g << (off + n));
            let mut wb = w.to_bytes_le();
            wb.resize(std::cmp::max(wb.len(), (off + n + 7) / 8 + 1), 0);
            let r2 = x.pow_ext(&wb, off, n);
            let mut t = x;
            t.set_pow_ext(&wb, off, n);
            ok &= s2(&t, &r2) && s2(&r, &r2);
            if e.bits() as usize == n {
                ok &= s2(&x.pow_big(&e), &r);
            }
            let ed: Vec<u64> = e.to_u64_digits();
            if e.bits() <= 32 {
                let v = *ed.first().unwrap_or(&0);
                ok &= s2(&x.pow_small(v as u32), &r);
            }
            if e.bits() <= 64 && n <= 64 {
                let v = *ed.first().unwrap_or(&0);
                ok &= s2(&x.pow_u64(v, n), &r);
                ok &= s2(&x.pow_u64_vartime(v), &r);
                let mut t = x;
                t.set_pow_u64(v, n);
                ok &= s2(&t, &r);
                let mut t = x;
                t.set_pow_u64_vartime(v);
                ok &= s2(&t, &r);
            }
            jf2(&r)
        }
        "f2.sel" => {
            let (x, y) = (f2(&a[0]), f2(&a[1]));
            let c = ctl(&a[2]);
            let r = Fp2::select(&x, &y, c);
            let mut t = Fp2::THREE;
            t.set_select(&x, &y, c);
            ok &= s2(&t, &r);
            let mut t = x;
            t.set_cond(&y, c);
            let mut n = x;
            n.set_condneg(c);
            let (mut u, mut v) = (x, y);
            Fp2::condswap(&mut u, &mut v, c);
            json!([jf2(&r), jf2(&t), jf2(&n), jf2(&u), jf2(&v)])
        }
        "f2.eq" => {
            let (x, y, z) = (f2(&a[0]), f2(&a[1]), f2(&a[2]));
            let u = (x + z) - z;
            let v = (x - z) + z;
            ok &= u == v && u.hashcode() == v.hashcode() && hashof(&u) == hashof(&v);
            ok &= (u == y) == (flag(u.equals(&y)) == 1);
            if s2(&x, &y) {
                ok &= u.hashcode() == y.hashcode() && hashof(&u) == hashof(&y);
            }
            json!([flag(u.equals(&y)), flag((u - y).iszero())])
        }
        "f2.inv" => {
            let x = f2(&a[0]);
            let i = unary!(x, invert, set_invert, ok, s2);
            ok &= s2(&i, &(Fp2::ONE / x));
            json!([jf2(&i), x.legendre()])
        }
        "f2.div" => {
            let x = f2(&a[0]);
            let mut out = Vec::new();
            for y in arr(&a[1]) {
                let y = f2(y);
                let (q, k) = spell!(x, y, /, /=, s2);
                ok &= k;
                out.push(jf2(&q));
            }
            json!(out)
        }
        "f2.sqrt" => {
            let x = f2(&a[0]);
            let (s, c) = x.sqrt();
            let mut t = x;
            let ct = t.set_sqrt();
            ok &= ct == c && s2(&t, &s);
            let (f, d) = x.fourth_root();
            let mut t = x;
            let dt = t.set_fourth_root();
            ok &= dt == d && s2(&t, &f);
            json!([jf2(&s), flag(c), jf2(&f), flag(d)])
        }
        "f2.batch" => {
            let mut v: Vec<Fp2> = arr(&a[0]).iter().map(f2).collect();
            Fp2::batch_invert(&mut v);
            json!(v.iter().map(jf2).collect::<Vec<_>>())
        }
        "f2.enc" => {
            let x = f2(&a[0]);
            let e = x.encode();
            let (y, c) = Fp2::decode(&e);
            json!([jbytes(&e), jf2(&y), flag(c), x.to_string()])
        }
        "f2.dec" => {
            let b = hexbytes(&a[0]);
            let (y, c) = Fp2::decode(&b);
            json!([jf2(&y), flag(c)])
        }
        "f2.rand" => {
            let mut r1 = ChaCha20Rng::seed_from_u64(int(&a[0]) as u64);
            let mut r2 = r1.clone();
            let x = Fp2::rand(&mut r1);
            let mut y = Fp2::ONE;
            y.set_rand(&mut r2);
            ok &= s2(&x, &y);
            let u = x.rand_nonsquare(&mut r1);
            let mut w = Fp2::ONE;
            w.set_rand_nonsquare(&mut r2);
            ok &= s2(&u, &w);
            json!([jf2(&x), jf2(&u)])
        }
        "f2.init" => {
            cx.f2 = arr(&a[0]).iter().map(f2).collect();
            json!(cx.f2.iter().map(jf2).collect::<Vec<_>>())
        }
        "f2.step" => {
            let k = a[0].as_str().unwrap();
            let i = int(&a[1]) as usize;
            let j = int(&a[2]) as usize;
            let n = int(&a[4]) as i32;
            let r = &mut cx.f2;
            let (x, y) = (r[i], r[j]);
            match k {
                "add" => r[i] += y,
                "sub" => r[i] -= &y,
                "mul" => r[i] *= &y,
                "div" => r[i] /= y,
                "neg" => r[i].set_neg(),
                "conj" => r[i].set_conj(),
                "square" => r[i].set_square(),
                "half" => r[i].set_half(),
                "mul2" => r[i].set_mul2(),
                "mul3" => r[i].set_mul3(),
                "mul4" => r[i].set_mul4(),
                "mul8" => r[i].set_mul8(),
                "small" => r[i].set_mul_small(n),
                "cond" => r[i].set_cond(&y, if n & 1 == 1 { u32::MAX } else { 0 }),
                "condneg" => r[i].set_condneg(if n & 1 == 1 { u32::MAX } else { 0 }),
                "swap" => {
                    let (mut u, mut v) = (x, y);
                    Fp2::condswap(&mut u, &mut v, if n & 1 == 1 { u32::MAX } else { 0 });
                    r[j] = v;
                    r[i] = u;
                }
                "inv" => r[i].set_invert(),
                "sqrt" => {
                    r[i].set_sqrt();
                }
                "copy" => r[i] = y,
                _ => panic!("harness: step {}", k),
            }
            json!(r.iter().map(jf2).collect::<Vec<_>>())
        }
        _ => panic!("harness: unknown op {}", op),
    };
    (r, ok)
}
