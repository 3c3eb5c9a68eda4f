//! Integer helpers.
use crate::js::*;
use crate::{Ctx, Out};
use festa_rs::discrete_log::*;
use serde_json::{json, Value};

pub fn run(op: &str, a: &Value, _cx: &mut Ctx) -> Out {
    match op {
        "int.xgcd" => (jbig(&xgcd_big(&big(&a[0]), &big(&a[1]))), true),
        // [remainders, fac]
        "int.crt" => {
            let r: Vec<_> = arr(&a[0]).iter().map(big).collect();
            (jbig(&compute_crt(&r, &fac(&a[1]))), true)
        }
        // every 32-bit argument as hex text
        "int.sqrt" => {
            let r: Vec<Value> = arr(&a[0])
                .iter()
                .map(|n| {
                    let n = u32::from_str_radix(n.as_str().unwrap(), 16).unwrap();
                    match std::panic::catch_unwind(|| sqrt_floor(n)) {
                        Ok(s) => json!(format!("{:x}", s)),
                        Err(_) => json!("panic"),
                    }
                })
                .collect();
            (json!(r), true)
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
