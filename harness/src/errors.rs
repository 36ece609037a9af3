//! Error values and options.
use crate::{f, guarded, num, s, u};
use ellalgo_rs::cutting_plane::Options;
use ellalgo_rs::error::EllipsoidError;
use serde_json::{json, Value};

fn opt(v: &Value) -> Option<f64> {
    if s(v) == "none" { None } else { Some(f(v)) }
}

fn make(e: &Value) -> EllipsoidError {
    let text = s(&e["text"]).to_string();
    match s(&e["which"]) {
        "NonConvergence" => EllipsoidError::NonConvergence {
            iterations: u(&e["iterations"]),
            max_iters: u(&e["max_iters"]),
            final_value: opt(&e["value"]),
        },
        "Infeasible" => EllipsoidError::Infeasible { reason: text },
        "NumericalInstability" => EllipsoidError::NumericalInstability { details: text, value: opt(&e["value"]) },
        "InvalidParameters" => EllipsoidError::InvalidParameters { details: text },
        "MatrixError" => EllipsoidError::MatrixError { details: text },
        k => panic!("HARNESS: unknown error {k}"),
    }
}

/// Does the text contain a number that reads back as v?
fn names(msg: &str, v: f64) -> bool {
    msg.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c)))
        .any(|t| [t, t.trim_end_matches('.')].iter().any(|t| t.parse::<f64>().map(|x| x == v).unwrap_or(false)))
        || (v.is_infinite() && msg.contains("inf"))
}

fn options(o: Options) -> Value {
    json!({"max_iters": o.max_iters, "tolerance": num(o.tolerance), "verbose": o.verbose})
}

pub fn run(h: &Value) -> Value {
    let mut out = h.clone();
    let mut log = vec![];
    for st in h["steps"].as_array().unwrap() {
        let mut ev = st.clone();
        ev["out"] = guarded(|| match s(&st["op"]) {
            "pair" => {
                let (a, b) = (make(&st["a"]), make(&st["b"]));
                let msg = a.to_string();
                let mut named = serde_json::Map::new();
                for k in ["iterations", "max_iters"] {
                    named.insert(k.into(), json!(names(&msg, u(&st["a"][k]) as f64)));
                }
                named.insert("text".into(), json!(msg.contains(s(&st["a"]["text"]))));
                if let Some(v) = opt(&st["a"]["value"]) {
                    named.insert("value".into(), json!(names(&msg, v)));
                }
                json!({"eq": a == b, "copy": a.clone() == a && !(a.clone() != a), "named": named, "samemsg": msg == b.to_string()})
            }
            "default" => options(Options::default()),
            "new" => options(Options::new(u(&st["max_iters"]), f(&st["tolerance"]))),
            k => panic!("HARNESS: unknown step {k}"),
        });
        if st["op"] == "new" {
            ev["tolerance"] = num(f(&st["tolerance"]));
        }
        log.push(ev);
    }
    out["log"] = json!(log);
    out.as_object_mut().unwrap().remove("steps");
    out
}
