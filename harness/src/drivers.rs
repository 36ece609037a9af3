//! The search drivers with scripted oracles and search spaces: every answer the
//! environment gives comes from the script, everything the driver does is logged.
use crate::*;
use ellalgo_rs::cutting_plane::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct World {
    script: Vec<Value>,
    /// next script entry to be consumed by a query
    next: usize,
    /// entry answered by the query in progress, waiting for its cut to be applied
    pending: Option<usize>,
    log: Vec<Value>,
    fresh: i64,
    /// number of answers available; the script is repeated if it is shorter
    len: usize,
}
type W = Rc<RefCell<World>>;

fn world(script: Vec<Value>, len: usize) -> W {
    Rc::new(RefCell::new(World { script, next: 0, pending: None, log: vec![], fresh: 0, len }))
}

#[derive(Clone, Copy)]
pub struct StubCut(i64);

#[derive(Clone)]
pub struct StubSpace {
    w: W,
    c: i64,
    shape: i64,
    tsq: f64,
}

fn status(s: &str) -> CutStatus {
    match s {
        "Success" => CutStatus::Success,
        "NoSoln" => CutStatus::NoSoln,
        "NoEffect" => CutStatus::NoEffect,
        "Unknown" => CutStatus::Unknown,
        _ => panic!("HARNESS: status {s}"),
    }
}

impl StubSpace {
    fn apply(&mut self, kind: &str, cut: &StubCut, grad: i64) -> CutStatus {
        let mut w = self.w.borrow_mut();
        let e = match w.pending.take() {
            Some(i) => w.script[i % w.script.len()].clone(),
            None => {
                // a cut applied without a query, or twice: record it, accept it
                w.log.push(json!({"e": kind, "cut": cut.0, "g": grad, "s": "Unasked", "t": "1e300"}));
                return CutStatus::Success;
            }
        };
        let st = s(&e["s"]).to_string();
        self.tsq = f(&e["t"]);
        if st == "Success" {
            w.fresh += 1;
            if !e["stay"].as_bool().unwrap_or(false) {
                self.c = w.fresh;
            }
            self.shape = w.fresh;
        }
        w.log.push(json!({"e": kind, "cut": cut.0, "g": grad, "s": st, "t": num(self.tsq), "c": self.c}));
        status(&st)
    }
}

impl UpdateByCutChoice<StubSpace> for StubCut {
    type ArrayType = i64;
    fn update_bias_cut_by(&self, sp: &mut StubSpace, grad: &i64) -> CutStatus {
        sp.apply("bias", self, *grad)
    }
    fn update_central_cut_by(&self, sp: &mut StubSpace, grad: &i64) -> CutStatus {
        sp.apply("central", self, *grad)
    }
    fn update_q_by(&self, sp: &mut StubSpace, grad: &i64) -> CutStatus {
        sp.apply("q", self, *grad)
    }
}

impl SearchSpace for StubSpace {
    type ArrayType = i64;
    fn xc(&self) -> i64 {
        self.c
    }
    fn tsq(&self) -> f64 {
        self.tsq
    }
    fn update_bias_cut<T>(&mut self, cut: &(i64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = i64>,
    {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T>(&mut self, cut: &(i64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = i64>,
    {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T>(&mut self, cut: &(i64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = i64>,
    {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: i64) {
        self.c = x;
    }
}

pub struct StubOracle {
    w: W,
}

const EXHAUSTED: &str = "script exhausted";

impl StubOracle {
    /// Consume the next script entry; (index, entry)
    fn ask(&mut self, mut rec: Value) -> Value {
        let mut w = self.w.borrow_mut();
        let i = w.next;
        if i >= w.len {
            rec["over"] = json!(true);
            w.log.push(rec);
            drop(w);
            panic!("{}", EXHAUSTED);
        }
        w.next += 1;
        w.pending = Some(i);
        let e = w.script[i % w.script.len()].clone();
        for k in ["a", "imp", "more", "xq"] {
            if !e[k].is_null() {
                rec[k] = e[k].clone();
            }
        }
        if !e["gn"].is_null() {
            rec["gn"] = num(f(&e["gn"]));
        }
        w.log.push(rec);
        e
    }
}

impl OracleFeas<i64> for StubOracle {
    type CutChoice = StubCut;
    fn assess_feas(&mut self, xc: &i64) -> Option<(i64, StubCut)> {
        let i = self.w.borrow().next as i64;
        let e = self.ask(json!({"e": "ask", "x": xc, "id": i}));
        if s(&e["a"]) == "feasible" {
            self.w.borrow_mut().pending = None;
            None
        } else {
            Some((1000 + i, StubCut(i)))
        }
    }
    fn update(&mut self, gamma: f64) {
        self.w.borrow_mut().log.push(json!({"e": "gamma", "v": num(gamma)}));
    }
}

impl OracleOptim<i64> for StubOracle {
    type CutChoice = StubCut;
    fn assess_optim(&mut self, xc: &i64, gamma: &mut f64) -> ((i64, StubCut), bool) {
        let i = self.w.borrow().next as i64;
        let e = self.ask(json!({"e": "ask", "x": xc, "id": i, "gamma": num(*gamma)}));
        *gamma = f(&e["gn"]);
        ((1000 + i, StubCut(i)), b(&e["imp"]))
    }
}

impl OracleOptimQ<i64> for StubOracle {
    type CutChoice = StubCut;
    fn assess_optim_q(&mut self, xc: &i64, gamma: &mut f64, retry: bool) -> ((i64, StubCut), bool, i64, bool) {
        let i = self.w.borrow().next as i64;
        let e = self.ask(json!({"e": "ask", "x": xc, "id": i, "gamma": num(*gamma), "retry": retry}));
        *gamma = f(&e["gn"]);
        ((1000 + i, StubCut(i)), b(&e["imp"]), e["xq"].as_i64().unwrap(), b(&e["more"]))
    }
}

struct BsStub {
    script: Vec<Value>,
    next: usize,
    log: Vec<Value>,
}
impl OracleBS for BsStub {
    fn assess_bs(&mut self, gamma: f64) -> bool {
        if self.next >= self.script.len() {
            self.log.push(json!({"e": "probe", "v": num(gamma), "over": true}));
            panic!("{}", EXHAUSTED);
        }
        let a = b(&self.script[self.next]);
        self.next += 1;
        self.log.push(json!({"e": "probe", "v": num(gamma), "a": a}));
        a
    }
}

fn ret(log: &mut Vec<Value>, r: Value) {
    let mut m = r.as_object().unwrap().clone();
    m.insert("e".into(), json!("ret"));
    log.push(Value::Object(m));
}

pub fn run(h: &Value) -> Value {
    let mut out = h.clone();
    if !h["gamma0"].is_null() {
        out["gamma0"] = num(f(&h["gamma0"]));
    }
    let opts = || Options { max_iters: u(&h["lim"]), tolerance: f(&h["tol"]), verbose: u(&h["lim"]) % 2 == 1 };
    let script = h["script"].as_array().cloned().unwrap_or_default();
    let len = h.get("len").map_or(script.len(), u);
    let w = world(script, len);
    let mut space = StubSpace { w: w.clone(), c: 0, shape: 0, tsq: 0.0 };
    let mut omega = StubOracle { w: w.clone() };
    let x_of = |x: Option<i64>| json!(x.unwrap_or(-1));
    match s(&h["kind"]) {
        "feas" => {
            let r = guarded(|| {
                let (x, n) = cutting_plane_feas(&mut omega, &mut space, &opts());
                json!({"x": x_of(x), "n": n})
            });
            ret(&mut w.borrow_mut().log, r);
        }
        "optim" => {
            let r = guarded(|| {
                let mut gamma = f(&h["gamma0"]);
                let (x, n) = cutting_plane_optim(&mut omega, &mut space, &mut gamma, &opts());
                json!({"x": x_of(x), "n": n, "gamma": num(gamma)})
            });
            ret(&mut w.borrow_mut().log, r);
        }
        "optimq" => {
            let r = guarded(|| {
                let mut gamma = f(&h["gamma0"]);
                let (x, n) = cutting_plane_optim_q(&mut omega, &mut space, &mut gamma, &opts());
                json!({"x": x_of(x), "n": n, "gamma": num(gamma)})
            });
            ret(&mut w.borrow_mut().log, r);
        }
        "bsearch" => {
            let mut o = BsStub { script: h["script"].as_array().unwrap().clone(), next: 0, log: vec![] };
            let mut iv = (f(&h["lo"]), f(&h["hi"]));
            let r = guarded(|| {
                let (moved, n) = bsearch(&mut o, &mut iv, &opts());
                json!({"moved": moved, "n": n})
            });
            let mut r = r;
            r["lo"] = num(iv.0);
            r["hi"] = num(iv.1);
            ret(&mut o.log, r);
            out["log"] = json!(o.log);
            return out;
        }
        "adaptor" => {
            // the kept space starts with its own identity, distinct from every scratch state
            space.tsq = f(&h["tsq0"]);
            let mut ad = BSearchAdaptor::new(omega, space, opts());
            for g in h["probes"].as_array().unwrap() {
                let r = guarded(|| {
                    let a = ad.assess_bs(f(g));
                    json!({"ans": a})
                });
                let mut m = r.as_object().unwrap().clone();
                m.insert("e".into(), json!("answer"));
                m.insert("c".into(), json!(ad.space.c));
                m.insert("shape".into(), json!(ad.space.shape));
                m.insert("tsq".into(), num(ad.space.tsq));
                let stop = m.contains_key("panic");
                w.borrow_mut().log.push(Value::Object(m));
                if stop {
                    break;
                }
            }
        }
        _ => unreachable!(),
    }
    let log = std::mem::take(&mut w.borrow_mut().log);
    let asks: Vec<usize> = (0..log.len()).filter(|&i| log[i]["e"] == "ask").collect();
    match h.get("tail").map(u) {
        // a very long run: only its last queries, and where they start from
        Some(k) if asks.len() > k => {
            let cut = asks[asks.len() - k];
            let best = log[..cut].iter().rev().find(|e| e["imp"] == json!(true));
            let best = best.map_or(json!(-1), |e| if e["xq"].is_null() { e["x"].clone() } else { e["xq"].clone() });
            let first = &log[cut];
            out["start"] = json!({"k": asks.len() - k, "c": first["x"], "gamma": first.get("gamma").cloned().unwrap_or(json!("none")), "retry": first["retry"] == json!(true), "best": best});
            out["log"] = json!(log[cut..]);
        }
        _ => out["log"] = json!(log),
    }
    out
}
