//! Conjugate gradients and power iterations.
use crate::ldlt::matrix;
use crate::{f, fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::power_iteration::*;
use serde_json::{json, Value};

pub fn run(h: &Value) -> Value {
    let a = matrix(&h["a"]);
    let out = guarded(|| match s(&h["kind"]) {
        "cg" => {
            let b = Arr::from(fs(&h["b"]));
            let x0 = h.get("x0").map(|v| Arr::from(fs(v)));
            let (a0, b0, x00) = (a.clone(), b.clone(), x0.clone());
            let r = conjugate_gradient(&a, &b, x0.as_ref(), f(&h["tol"]), u(&h["max"]));
            let kept = a == a0 && b == b0 && x0 == x00;
            match r {
                Ok(x) => json!({"ok": true, "x": nums(x.data()), "kept": kept}),
                Err(_) => json!({"ok": false, "kept": kept}),
            }
        }
        _ => {
            let mut x = Arr::from(fs(&h["x"]));
            let o = Options { max_iters: u(&h["max"]), tolerance: f(&h["tol"]) };
            let (v, it) = match u(&h["variant"]) {
                1 => power_iteration(&a, &mut x, &o),
                2 => power_iteration2(&a, &mut x, &o),
                3 => power_iteration3(&a, &mut x, &o),
                4 => power_iteration4(&a, &mut x, &o),
                k => panic!("HARNESS: variant {k}"),
            };
            json!({"v": num(v), "it": it, "x": nums(x.data())})
        }
    });
    let mut o = h.as_object().unwrap().clone();
    o.insert("out".into(), out);
    Value::Object(o)
}
