//! LDLTMgr driven by histories of factorizations, witnesses, quadratic forms and square roots.
use crate::{fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use serde_json::{json, Value};

pub fn matrix(v: &Value) -> Arr {
    let rows: Vec<Vec<f64>> = v.as_array().unwrap().iter().map(fs).collect();
    let (r, c) = (rows.len(), rows.first().map(|x| x.len()).unwrap_or(0));
    Arr::from_shape_vec(r, c, rows.concat())
}

pub fn run(h: &Value) -> Value {
    let n = u(&h["n"]);
    let mut mgr = LDLTMgr::new(n);
    let mut log = vec![];
    for op in h["ops"].as_array().unwrap() {
        let m = &mut mgr;
        let r = guarded(|| match s(&op["op"]) {
            "factor" => {
                let a = matrix(&op["a"]);
                let ok = match s(&op["mode"]) {
                    "full" => m.factorize(&a),
                    "lazy" => m.factor(|i, j| a.at(i, j)),
                    "semi" => m.factor_with_allow_semidefinite(|i, j| a.at(i, j)),
                    k => panic!("HARNESS: mode {k}"),
                };
                json!({"ok": ok, "spd": m.is_spd(), "s": m.pos.0, "p": m.pos.1})
            }
            "witness" => {
                let ep = m.witness();
                json!({"ep": num(ep), "wit": nums(m.wit.data()), "spd": m.is_spd()})
            }
            "quad" => json!({"v": num(m.sym_quad(&matrix(&op["b"])))}),
            "sqrt" => {
                let r = m.sqrt();
                let rows: Vec<Value> = (0..r.rows()).map(|i| nums(&(0..r.cols()).map(|j| r.at(i, j)).collect::<Vec<_>>())).collect();
                json!({"r": rows})
            }
            k => panic!("HARNESS: op {k}"),
        });
        let mut e = op.as_object().unwrap().clone();
        e.insert("out".into(), r);
        log.push(Value::Object(e));
    }
    let mut o = h.as_object().unwrap().clone();
    o.remove("ops");
    o.insert("log".into(), json!(log));
    Value::Object(o)
}
