//! Repeated random draws, recorded in order.
use crate::ecops::curve;
use crate::js::*;
use crate::Out;
use festa_rs::ecFESTA::Point;
use festa_rs::festa::FESTACrypto;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use festa_rs::supersingular::{generate_random_point_order_factored_D, random_isogeny_x_only};
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};

pub fn run(op: &str, a: &Value) -> Out {
    let rng = |i: usize| ChaCha20Rng::seed_from_u64(int(&a[i]) as u64);
    let list = |n: &Value, f: &mut dyn FnMut(usize) -> Value| -> Out {
        (json!((0..int(n) as usize).map(|k| f(k)).collect::<Vec<_>>()), true)
    };
    match op {
        // [seed, n]
        "rd.fp" => {
            let mut r = rng(0);
            list(&a[1], &mut |k| {
                if k % 2 == 0 {
                    return jfp(&Fp::rand(&mut r));
                }
                let mut x = Fp::ONE;
                x.set_rand(&mut r);
                jfp(&x)
            })
        }
        "rd.f2" => {
            let mut r = rng(0);
            list(&a[1], &mut |k| {
                if k % 2 == 0 {
                    return jf2(&Fp2::rand(&mut r));
                }
                let mut x = Fp2::ONE;
                x.set_rand(&mut r);
                jf2(&x)
            })
        }
        "rd.nsq" => {
            let mut r = rng(0);
            list(&a[1], &mut |k| {
                if k % 2 == 0 {
                    return jf2(&Fp2::ONE.rand_nonsquare(&mut r));
                }
                let mut x = Fp2::ONE;
                x.set_rand_nonsquare(&mut r);
                jf2(&x)
            })
        }
        // [A, seed, n]
        "rd.point" => {
            let e = curve(&a[0]);
            let mut r = rng(1);
            list(&a[2], &mut |k| {
                if k % 2 == 0 {
                    return jpt(&e.rand_point(&mut r));
                }
                let mut p = Point::INFINITY;
                e.set_rand_point(&mut r, &mut p);
                jpt(&p)
            })
        }
        // [A, fac, even, n]
        "rd.tor" => {
            let e = curve(&a[0]);
            let f = fac(&a[1]);
            list(&a[3], &mut |_| jpt(&generate_random_point_order_factored_D(&e, &f, int(&a[2]) as usize)))
        }
        // [A, fac, steps, n] -> codomains of the steps
        "rd.iso" => {
            let e = curve(&a[0]);
            let f = fac(&a[1]);
            let steps = int(&a[2]) as usize;
            list(&a[3], &mut |_| {
                let (phi, c) = random_isogeny_x_only(&e, &f, steps);
                let per = phi.len() / steps;
                let mut v: Vec<Value> = (1..steps).map(|k| jf2(&phi[k * per - 1].get_codomain().get_constant())).collect();
                v.push(jf2(&c.get_constant()));
                json!(v)
            })
        }
        // [n] -> [EA, EA', a11, a22] of n fresh keys
        "rd.keys" => {
            let f = FESTACrypto::new();
            let one = || {
                let (pk, sk) = f.keygen();
                let (ea, _, _) = pk.extract();
                let (eap, _, _, (a11, a22)) = sk.extract();
                json!([jf2(&ea.get_constant()), jf2(&eap.get_constant()), jbig(&a11), jbig(&a22)])
            };
            // from several threads that share the instance
            let n = int(&a[0]) as usize;
            let v: Vec<Value> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        let one = &one;
                        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || (0..(n + 3 - t) / 4).map(|_| one()).collect::<Vec<_>>()).unwrap()
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            (json!(v), true)
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
