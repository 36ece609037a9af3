//! The cut calculators (EllCalc, EllCalcCore).
use crate::{b, f, guarded, num, s, u};
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut};
use ellalgo_rs::ell_calc::EllCalc;
use serde_json::{json, Value};

pub fn status(s: CutStatus) -> &'static str {
    match s {
        CutStatus::Success => "Success",
        CutStatus::NoSoln => "NoSoln",
        CutStatus::NoEffect => "NoEffect",
        CutStatus::Unknown => "Unknown",
    }
}

pub fn run(h: &Value) -> Value {
    let mut calc = EllCalc::new(u(&h["n"]));
    calc.use_parallel_cut = b(&h["upc"]);
    let mut log = vec![];
    for c in h["calls"].as_array().unwrap() {
        let (tsq, b0) = (f(&c["tsq"]), f(&c["b0"]));
        let b1 = c.get("b1").map(f);
        let calc = &calc;
        let r = guarded(|| {
            let n = calc.helper.n_f;
            let pc = ParallelCut(b0, b1);
            let need = || b1.unwrap_or_else(|| panic!("HARNESS: b1"));
            let ok = |p: (f64, f64, f64)| (CutStatus::Success, p);
            let (st, p) = match s(&c["fn"]) {
                "sp_bias" => calc.calc_single_or_parallel_bias_cut(&pc, tsq),
                "sp_central" => calc.calc_single_or_parallel_central_cut(&pc, tsq),
                "sp_q" => calc.calc_single_or_parallel_q(&pc, tsq),
                "p_bias" => calc.calc_parallel_bias_cut(b0, need(), tsq),
                "p_central" => calc.calc_parallel_central_cut(need(), tsq),
                "p_q" => calc.calc_parallel_q(b0, need(), tsq),
                "bias" => calc.calc_bias_cut(b0, tsq),
                "q" => calc.calc_bias_cut_q(b0, tsq),
                "central" => calc.calc_central_cut(tsq),
                "core_pbias" => ok(calc.helper.calc_parallel_bias_cut(b0, need(), tsq)),
                "core_pbias_fast" => ok(calc.helper.calc_parallel_bias_cut_fast(b0, need(), tsq, b0 * need(), tsq + n * (b0 * need()))),
                "core_pbias_old" => ok(calc.helper.calc_parallel_bias_cut_fast_old(b0, need(), tsq, b0 * need(), tsq + n * (b0 * need()))),
                "core_pcentral" => ok(calc.helper.calc_parallel_central_cut(need(), tsq)),
                "core_bias" => ok(calc.helper.calc_bias_cut(b0, tsq.sqrt())),
                "core_bias_fast" => ok(calc.helper.calc_bias_cut_fast(b0, tsq.sqrt(), tsq.sqrt() + n * b0)),
                "core_central" => ok(calc.helper.calc_central_cut(tsq)),
                k => panic!("HARNESS: unknown fn {k}"),
            };
            let mut o = json!({"st": status(st), "rho": num(p.0), "sigma": num(p.1), "delta": num(p.2)});
            // what the code makes of the corresponding single cut
            let twin = match s(&c["fn"]) {
                "sp_bias" | "p_bias" => Some(calc.calc_bias_cut(b0, tsq)),
                "sp_q" | "p_q" => Some(calc.calc_bias_cut_q(b0, tsq)),
                "sp_central" | "p_central" => Some(calc.calc_central_cut(tsq)),
                _ => None,
            };
            if let Some((st, p)) = twin {
                o["twin"] = json!({"st": status(st), "rho": num(p.0), "sigma": num(p.1), "delta": num(p.2)});
            }
            o
        });
        let mut e = c.as_object().unwrap().clone();
        e.insert("out".into(), r);
        log.push(Value::Object(e));
    }
    let mut o = h.as_object().unwrap().clone();
    o.remove("calls");
    o.insert("log".into(), json!(log));
    Value::Object(o)
}
