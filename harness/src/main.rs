//! Command interpreter over the public API of ellalgo-rs.
//!
//! stdin: one JSON object per line (a "history": constructor data and a list of steps);
//! stdout: the same object with what the implementation did added under "out" / "log" / "res".
//! Every real number travels as a decimal string that round-trips the f64 exactly.
//! A panic of the code under test is recorded as data ("panic": true).

use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod arrs;
mod calc;
mod drivers;
mod errors;
mod ldlt;
mod numeric;
mod oracles;
mod runs;
mod space;

pub fn num(x: f64) -> Value {
    if x.is_nan() {
        json!("NaN")
    } else if x.is_infinite() {
        json!(if x > 0.0 { "inf" } else { "-inf" })
    } else {
        json!(format!("{:e}", x))
    }
}
pub fn nums(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|&v| num(v)).collect())
}
pub fn f(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse::<f64>().unwrap_or_else(|_| panic!("HARNESS: bad number {s}")),
        Value::Number(n) => n.as_f64().unwrap(),
        _ => panic!("HARNESS: bad number {v}"),
    }
}
pub fn fs(v: &Value) -> Vec<f64> {
    v.as_array().expect("HARNESS: array expected").iter().map(f).collect()
}
pub fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: bad integer {v}")) as usize
}
pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("HARNESS: bad boolean {v}"))
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("HARNESS: bad string {v}"))
}

/// Run `step`; a panic becomes {"panic": true, "msg": ...}.
pub fn guarded(step: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(step)) {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("HARNESS") {
                eprintln!("{msg}");
                std::process::exit(3);
            }
            let mut m = Map::new();
            m.insert("panic".into(), json!(true));
            m.insert("msg".into(), json!(msg));
            Value::Object(m)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let h: Value = serde_json::from_str(&line).expect("HARNESS: bad json");
        let kind = h["kind"].as_str().unwrap_or("").to_string();
        let out = guarded(|| match kind.as_str() {
            "feas" | "optim" | "optimq" | "bsearch" | "adaptor" => drivers::run(&h),
            "calc" => calc::run(&h),
            "space" => space::run(&h),
            "ldlt" => ldlt::run(&h),
            "lmi" | "lowpass" | "lowcase" | "profit" | "profitrb" | "profitq" | "maxcut" | "svm" | "quasi" => oracles::run(&h),
            "arr" => arrs::run(&h),
            "cg" | "power" => numeric::run(&h),
            "errors" => errors::run(&h),
            "e2e" => runs::run(&h),
            k => panic!("HARNESS: unknown kind {k}"),
        });
        let out = match out {
            Value::Object(m) if m.contains_key("panic") => {
                let mut h2 = h.as_object().unwrap().clone();
                h2.insert("panic".into(), json!(true));
                h2.insert("msg".into(), m["msg"].clone());
                Value::Object(h2)
            }
            v => v,
        };
        writeln!(w, "{}", out).unwrap();
        w.flush().unwrap();
    }
}
