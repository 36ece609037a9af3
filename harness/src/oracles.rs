//! The shipped oracles driven by query histories.
use crate::ldlt::matrix;
use crate::{b, f, fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{OracleFeas, OracleOptim, OracleOptimQ, ParallelCut, SingleCut};
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;
use serde_json::{json, Map, Value};

fn single(c: Option<(Arr, SingleCut)>) -> Value {
    match c {
        None => json!({"feas": true}),
        Some((g, SingleCut(e))) => json!({"feas": false, "g": nums(g.data()), "b0": num(e)}),
    }
}
fn par(g: &Arr, p: &ParallelCut) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("g".into(), nums(g.data()));
    m.insert("b0".into(), num(p.0));
    if let Some(x) = p.1 {
        m.insert("b1".into(), num(x));
    }
    m
}

fn lmi(h: &Value) -> Vec<Value> {
    let fm: Vec<Arr> = h["f"].as_array().unwrap().iter().map(matrix).collect();
    let mut log = vec![];
    let mut a = h.get("b").map(|x| LMIOracle::new(fm.clone(), matrix(x)));
    let mut o = h.get("b").map(|x| LMIOldOracle::new(fm.clone(), matrix(x)));
    let mut z = if h.get("b").is_none() { Some(LMI0Oracle::new(fm)) } else { None };
    for q in h["qs"].as_array().unwrap() {
        let x = Arr::from(fs(&q["x"]));
        let mut outs = vec![];
        if let Some(a) = &mut a {
            outs.push(guarded(|| single(a.assess_feas(&x))));
        }
        if let Some(a) = &mut o {
            outs.push(guarded(|| single(a.assess_feas(&x))));
        }
        if let Some(a) = &mut z {
            outs.push(guarded(|| single(a.assess_feas(&x).map(|(g, e)| (g, SingleCut(e))))));
        }
        let mut e = q.as_object().unwrap().clone();
        e.insert("outs".into(), json!(outs));
        log.push(Value::Object(e));
    }
    log
}

fn lowpass_fields(o: &LowpassOracle) -> Value {
    json!({"nwpass": o.nwpass, "nwstop": o.nwstop, "lp": num(o.lp_sq), "up": num(o.up_sq), "sp": num(o.sp_sq),
           "mdim": o.spectrum.len(), "ragged": o.spectrum.iter().any(|r| r.len() != o.spectrum[0].len())})
}
fn spectrum(o: &LowpassOracle) -> Value {
    Value::Array(o.spectrum.iter().map(|r| nums(r.data())).collect())
}

fn lowpass(h: &Value, log: &mut Vec<Value>) -> Map<String, Value> {
    let mut top = Map::new();
    let mut o = if h.get("case").is_some() {
        create_lowpass_case(u(&h["n"]))
    } else {
        LowpassOracle::new(u(&h["n"]), f(&h["wpass"]), f(&h["wstop"]), f(&h["lp"]), f(&h["up"]), f(&h["sp"]))
    };
    top.insert("fields".into(), lowpass_fields(&o));
    if let Some(rows) = h.get("rows").and_then(|r| r.as_array()) {
        let pick = rows.iter().map(|r| o.spectrum.get(u(r)).map_or(json!([]), |a| nums(a.data())));
        top.insert("spectrum".into(), Value::Array(pick.collect()));
    } else {
        top.insert("spectrum".into(), spectrum(&o));
    }
    let mut gamma = o.sp_sq;
    for q in h["qs"].as_array().unwrap() {
        let x = Arr::from(fs(&q["x"]));
        let om = &mut o;
        let gm = &mut gamma;
        if let Some(g) = q.get("gamma") {
            *gm = f(g);
        }
        let before = *gm;
        let r = guarded(|| {
            if s(&q["mode"]) == "feas" {
                let sp = om.sp_sq;
                match om.assess_feas(&x) {
                    None => json!({"feas": true, "limit": num(sp), "fmax": num(om.fmax), "kmax": om.kmax}),
                    Some((g, p)) => {
                        let mut m = par(&g, &p);
                        m.insert("feas".into(), json!(false));
                        m.insert("limit".into(), num(sp));
                        Value::Object(m)
                    }
                }
            } else {
                let ((g, p), imp) = om.assess_optim(&x, gm);
                let mut m = par(&g, &p);
                m.insert("imp".into(), json!(imp));
                m.insert("limit".into(), num(before));
                m.insert("gamma".into(), num(*gm));
                Value::Object(m)
            }
        });
        let mut e = q.as_object().unwrap().clone();
        e.insert("out".into(), r);
        log.push(Value::Object(e));
    }
    top
}

fn optim<O: OracleOptim<Arr, CutChoice = SingleCut>>(mut o: O, h: &Value) -> Vec<Value> {
    let mut gamma = h.get("gamma0").map(f).unwrap_or(0.0);
    let mut log = vec![];
    for q in h["qs"].as_array().unwrap() {
        let x = Arr::from(fs(&q["x"]));
        if let Some(g) = q.get("gamma") {
            gamma = f(g);
        }
        let before = gamma;
        let om = &mut o;
        let gm = &mut gamma;
        let r = guarded(|| {
            let ((g, SingleCut(e)), imp) = om.assess_optim(&x, gm);
            json!({"g": nums(g.data()), "b0": num(e), "imp": imp, "gamma": num(*gm)})
        });
        let mut e = q.as_object().unwrap().clone();
        e.insert("gamma".into(), num(before));
        e.insert("out".into(), r);
        log.push(Value::Object(e));
    }
    log
}

fn optim_q(mut o: ProfitOracleQ, h: &Value) -> Vec<Value> {
    let mut gamma = h.get("gamma0").map(f).unwrap_or(0.0);
    let mut log = vec![];
    for q in h["qs"].as_array().unwrap() {
        let x = Arr::from(fs(&q["x"]));
        if let Some(g) = q.get("gamma") {
            gamma = f(g);
        }
        let before = gamma;
        let om = &mut o;
        let gm = &mut gamma;
        let r = guarded(|| {
            let ((g, SingleCut(e)), imp, xq, more) = om.assess_optim_q(&x, gm, b(&q["retry"]));
            json!({"g": nums(g.data()), "b0": num(e), "imp": imp, "gamma": num(*gm), "xq": nums(xq.data()), "more": more})
        });
        let mut e = q.as_object().unwrap().clone();
        e.insert("gamma".into(), num(before));
        e.insert("out".into(), r);
        log.push(Value::Object(e));
    }
    log
}

pub fn run(h: &Value) -> Value {
    let mut o = h.as_object().unwrap().clone();
    o.remove("qs");
    let p3 = || {
        let p = fs(&h["params"]);
        (p[0], p[1], p[2])
    };
    let arr = |k: &str| Arr::from(fs(&h[k]));
    let log = match s(&h["kind"]) {
        "lmi" => lmi(h),
        "lowpass" => {
            let mut log = vec![];
            for (k, v) in lowpass(h, &mut log) {
                o.insert(k, v);
            }
            log
        }
        "profit" => optim(ProfitOracle::new(p3(), arr("el"), arr("price")), h),
        "profitrb" => {
            let e = fs(&h["unc"]);
            optim(ProfitRbOracle::new(p3(), arr("el"), arr("price"), (e[0], e[1], e[2], e[3], e[4])), h)
        }
        "profitq" => optim_q(ProfitOracleQ::new(p3(), arr("el"), arr("price")), h),
        "maxcut" => {
            let w = match h.get("flat") {
                Some(v) => Arr::from(fs(v)),
                None => matrix(&h["w"]),
            };
            optim(MaxcutOracle::new(w), h)
        }
        "svm" => {
            let labels: Vec<i32> = h["labels"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect();
            optim(SvmOracle::new(matrix(&h["data"]), labels), h)
        }
        "quasi" => optim(MyOracle::default(), h),
        k => panic!("HARNESS: {k}"),
    };
    o.insert("log".into(), json!(log));
    Value::Object(o)
}
