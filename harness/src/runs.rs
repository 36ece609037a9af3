//! Complete runs of the drivers with the library's search spaces.
use crate::ldlt::matrix;
use crate::space::{make, Sp};
use crate::{f, fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::create_lowpass_case;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::quasicvx::MyOracle;
use serde_json::{json, Value};

/// A convex set { lo_i <= a_i x <= hi_i } intersected with balls, as a user would write its oracle.
struct Poly {
    rows: Vec<(Vec<f64>, Option<f64>, f64)>, // a, lo, hi
    balls: Vec<(Vec<f64>, f64)>,             // centre, radius
    c: Vec<f64>,
    rule: String,
    idx: usize,
    par: bool,
    shift: f64, // binary search: the constraint c x >= gamma
    param: bool,
}

impl Poly {
    fn new(p: &Value) -> Poly {
        let rows = p["rows"]
            .as_array()
            .unwrap()
            .iter()
            .map(|r| (fs(&r["a"]), r.get("lo").map(f), f(&r["hi"])))
            .collect();
        let balls = p["balls"].as_array().unwrap().iter().map(|r| (fs(&r["c"]), f(&r["r"]))).collect();
        Poly {
            rows,
            balls,
            c: p.get("c").map(fs).unwrap_or_default(),
            rule: s(&p["rule"]).to_string(),
            idx: 0,
            par: p["par"].as_bool().unwrap_or(false),
            shift: 0.0,
            param: p.get("param").is_some(),
        }
    }
    fn len(&self) -> usize {
        self.rows.len() + self.balls.len() + usize::from(self.param)
    }
    fn one(&self, i: usize, x: &[f64]) -> Option<(Vec<f64>, f64, Option<f64>)> {
        let dot = |a: &[f64]| a.iter().zip(x).map(|(p, q)| p * q).sum::<f64>();
        if i < self.rows.len() {
            let (a, lo, hi) = &self.rows[i];
            let v = dot(a);
            if v > *hi {
                return Some((a.clone(), v - hi, lo.map(|l| v - l)));
            }
            if let Some(l) = lo {
                if v < *l {
                    return Some((a.iter().map(|t| -t).collect(), l - v, Some(hi - v)));
                }
            }
            return None;
        }
        let i = i - self.rows.len();
        if i < self.balls.len() {
            let (c, r) = &self.balls[i];
            let d: Vec<f64> = x.iter().zip(c).map(|(p, q)| p - q).collect();
            let q: f64 = d.iter().map(|t| t * t).sum();
            if q > r * r {
                return Some((d.iter().map(|t| 2.0 * t).collect(), q - r * r, None));
            }
            return None;
        }
        let v = self.shift - dot(&self.c);
        if v > 0.0 {
            return Some((self.c.iter().map(|t| -t).collect(), v, None));
        }
        None
    }
    fn violated(&mut self, x: &[f64]) -> Option<(Vec<f64>, f64, Option<f64>)> {
        let n = self.len();
        match self.rule.as_str() {
            "first" => (0..n).find_map(|i| self.one(i, x)),
            "rotate" => {
                for _ in 0..n {
                    self.idx = (self.idx + 1) % n;
                    if let Some(c) = self.one(self.idx, x) {
                        return Some(c);
                    }
                }
                None
            }
            _ => {
                let mut best: Option<(Vec<f64>, f64, Option<f64>)> = None;
                for i in 0..n {
                    if let Some(c) = self.one(i, x) {
                        if best.as_ref().map(|b| c.1 > b.1).unwrap_or(true) {
                            best = Some(c);
                        }
                    }
                }
                best
            }
        }
    }
}

impl OracleFeas<Arr> for Poly {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, xc: &Arr) -> Option<(Arr, ParallelCut)> {
        let par = self.par;
        self.violated(xc.data()).map(|(g, b, o)| (Arr::from(g), ParallelCut(b, if par { o } else { None })))
    }
    fn update(&mut self, gamma: f64) {
        self.shift = gamma;
    }
}

impl OracleOptim<Arr> for Poly {
    type CutChoice = ParallelCut;
    fn assess_optim(&mut self, xc: &Arr, gamma: &mut f64) -> ((Arr, ParallelCut), bool) {
        if let Some(c) = self.assess_feas(xc) {
            return (c, false);
        }
        let v: f64 = self.c.iter().zip(xc.data()).map(|(p, q)| p * q).sum();
        let g: Vec<f64> = self.c.iter().map(|t| -t).collect();
        if v < *gamma {
            return ((Arr::from(g), ParallelCut(*gamma - v, None)), false);
        }
        *gamma = v;
        ((Arr::from(g), ParallelCut(0.0, None)), true)
    }
}

/// Integral points near the centre: the same problem restricted to the lattice Z^n, maximising c x.
struct PolyQ {
    p: Poly,
    xd: Vec<f64>,
}
impl OracleOptimQ<Arr> for PolyQ {
    type CutChoice = SingleCut;
    fn assess_optim_q(&mut self, y: &Arr, gamma: &mut f64, retry: bool) -> ((Arr, SingleCut), bool, Arr, bool) {
        if !retry {
            if let Some((g, b, _)) = self.p.violated(y.data()) {
                return ((Arr::from(g), SingleCut(b)), false, y.clone(), true);
            }
            self.xd = y.data().iter().map(|t| t.round()).collect();
        }
        let shift = |g: &[f64]| -> f64 { g.iter().zip(y.data().iter().zip(&self.xd)).map(|(a, (p, q))| a * (p - q)).sum() };
        if let Some((g, b, _)) = self.p.violated(&self.xd.clone()) {
            let b = b + shift(&g);
            return ((Arr::from(g), SingleCut(b)), false, Arr::from(self.xd.clone()), !retry);
        }
        let v: f64 = self.p.c.iter().zip(&self.xd).map(|(p, q)| p * q).sum();
        let g: Vec<f64> = self.p.c.iter().map(|t| -t).collect();
        let sh = shift(&g);
        if v <= *gamma {
            return ((Arr::from(g), SingleCut(*gamma - v + sh)), false, Arr::from(self.xd.clone()), !retry);
        }
        *gamma = v;
        ((Arr::from(g), SingleCut(sh)), true, Arr::from(self.xd.clone()), !retry)
    }
}

/// LMI0 has no OracleFeas implementation of its own.
struct Lmi0(LMI0Oracle);
impl OracleFeas<Arr> for Lmi0 {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, xc: &Arr) -> Option<(Arr, SingleCut)> {
        self.0.assess_feas(xc).map(|(g, e)| (g, SingleCut(e)))
    }
}

/// min c x subject to a matrix inequality, as a user would combine the oracles.
struct LmiOptim {
    c: Arr,
    a: LMIOracle,
}
impl OracleOptim<Arr> for LmiOptim {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, xc: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        if let Some(c) = self.a.assess_feas(xc) {
            return (c, false);
        }
        let v = -self.c.dot(xc);
        // gamma is to be maximised: -c x
        if v < *gamma {
            return ((self.c.clone(), SingleCut(*gamma - v)), false);
        }
        *gamma = v;
        ((self.c.clone(), SingleCut(0.0)), true)
    }
}

macro_rules! on_space {
    ($sp:expr, |$e:ident| $body:expr) => {
        match $sp {
            Sp::E(mut $e) => $body,
            Sp::S(mut $e) => $body,
        }
    };
}

fn point(x: Option<Arr>, it: usize, tsq: f64) -> Value {
    match x {
        Some(x) => json!({"found": true, "x": nums(x.data()), "iters": it, "tsq": num(tsq)}),
        None => json!({"found": false, "iters": it, "tsq": num(tsq)}),
    }
}
fn with(mut v: Value, gamma: f64) -> Value {
    v.as_object_mut().unwrap().insert("gamma".into(), num(gamma));
    v
}

fn feas<O: OracleFeas<Arr>>(mut o: O, sp: Sp, opt: &Options) -> Value
where
    O::CutChoice: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr>
        + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    on_space!(sp, |e| {
        let (x, it) = cutting_plane_feas(&mut o, &mut e, opt);
        point(x, it, e.tsq())
    })
}
fn optim<O: OracleOptim<Arr>>(mut o: O, sp: Sp, opt: &Options, mut gamma: f64) -> Value
where
    O::CutChoice: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr>
        + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    on_space!(sp, |e| {
        let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gamma, opt);
        with(point(x, it, e.tsq()), gamma)
    })
}
fn optim_q<O: OracleOptimQ<Arr>>(mut o: O, sp: Sp, opt: &Options, mut gamma: f64) -> Value
where
    O::CutChoice: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr>
        + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    on_space!(sp, |e| {
        let (x, it) = cutting_plane_optim_q(&mut o, &mut e, &mut gamma, opt);
        with(point(x, it, e.tsq()), gamma)
    })
}
fn bs<O: OracleFeas<Arr>>(o: O, sp: Sp, opt: &Options, iv: (f64, f64), bopt: &Options) -> Value
where
    O::CutChoice: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr>
        + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    on_space!(sp, |e| {
        e.set_xc(e.xc());
        let mut a = BSearchAdaptor::new(o, e, Options::new(opt.max_iters, opt.tolerance));
        let mut iv = iv;
        let (ok, it) = bsearch(&mut a, &mut iv, bopt);
        json!({"found": ok, "iters": it, "lo": num(iv.0), "hi": num(iv.1), "x": nums(a.space.xc().data())})
    })
}

/// Probe value t of the binary search means "c x >= -t", so that success is monotone in t.
struct Neg(Poly);
impl OracleFeas<Arr> for Neg {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, xc: &Arr) -> Option<(Arr, ParallelCut)> {
        self.0.assess_feas(xc)
    }
    fn update(&mut self, gamma: f64) {
        self.0.update(-gamma);
    }
}

/// An oracle that knows a ball around z and returns some cut that keeps it, as hostile as `mode` says.
struct Pursuit {
    z: Vec<f64>,
    r: f64,
    unit: f64, // length of the gradients
    mode: String,
    state: u64,
}
impl Pursuit {
    fn new(p: &Value) -> Pursuit {
        Pursuit {
            z: fs(&p["z"]),
            r: f(&p["r"]),
            unit: f(&p["unit"]),
            mode: s(&p["mode"]).to_string(),
            state: u(&p["seed"]) as u64,
        }
    }
    /// splitmix64, uniform in [0, 1)
    fn uniform(&mut self) -> f64 {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut v = self.state;
        v = (v ^ (v >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        v = (v ^ (v >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((v ^ (v >> 31)) >> 11) as f64 / (1u64 << 53) as f64
    }
    fn distance(&self, x: &Arr) -> f64 {
        x.data().iter().zip(&self.z).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
    }
    /// A cut at x that keeps the ball of radius r around z, for x outside of it.
    fn cut(&mut self, x: &Arr, r: f64) -> (Arr, f64, Option<f64>) {
        let n = self.z.len();
        let d = self.distance(x);
        let dir: Vec<f64> = x.data().iter().zip(&self.z).map(|(a, b)| (a - b) / d).collect();
        let mut w: Vec<f64> = (0..n).map(|_| self.uniform() + self.uniform() + self.uniform() - 1.5).collect();
        let along: f64 = w.iter().zip(&dir).map(|(a, b)| a * b).sum();
        w.iter_mut().zip(&dir).for_each(|(a, b)| *a -= along * b);
        let len = w.iter().map(|a| a * a).sum::<f64>().sqrt().max(1e-12);
        let least = (r / d).min(1.0);
        let c = match self.mode.as_str() {
            "direct" => 1.0,
            "hostile" => least,
            _ => least + (1.0 - least) * self.uniform(),
        };
        let t = (1.0 - c * c).max(0.0).sqrt();
        let g: Vec<f64> = dir.iter().zip(&w).map(|(a, b)| self.unit * (c * a + t * b / len)).collect();
        let room = ((c * d - r) * (1.0 - 1e-9)).max(0.0);
        let b0 = match self.mode.as_str() {
            "deep" | "direct" => room * self.uniform(),
            _ => 0.0,
        };
        let b1 = if self.mode == "slab" { Some(self.unit * (c * d + r) * (1.0 + 1e-6 + self.uniform())) } else { None };
        (Arr::from(g), self.unit * b0, b1)
    }
}
impl OracleFeas<Arr> for Pursuit {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, ParallelCut)> {
        if self.distance(x) <= self.r {
            return None;
        }
        let (g, b0, b1) = self.cut(x, self.r);
        Some((g, ParallelCut(b0, b1)))
    }
}
/// Best by distance from z: gamma is minus the distance.
impl OracleOptim<Arr> for Pursuit {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let d = self.distance(x);
        if d < -*gamma {
            *gamma = -d;
            let (g, _, _) = self.cut(x, d);
            return ((g, SingleCut(0.0)), true);
        }
        let (g, b0, _) = self.cut(x, -*gamma);
        ((g, SingleCut(b0)), false)
    }
}

pub fn run(h: &Value) -> Value {
    let sp = make(&h["space"]);
    let opt = Options::new(u(&h["max"]), f(&h["tol"]));
    let gamma = h.get("gamma0").map(f).unwrap_or(0.0);
    let p = &h["prob"];
    let p3 = || {
        let p = fs(&h["prob"]["params"]);
        (p[0], p[1], p[2])
    };
    let arr = |k: &str| Arr::from(fs(&h["prob"][k]));
    let mats = || -> Vec<Arr> { h["prob"]["f"].as_array().unwrap().iter().map(matrix).collect() };
    let out = guarded(|| match (s(&h["driver"]), s(&p["type"])) {
        ("feas", "poly") => feas(Poly::new(p), sp, &opt),
        ("optim", "poly") => optim(Poly::new(p), sp, &opt, gamma),
        ("optimq", "poly") => optim_q(PolyQ { p: Poly::new(p), xd: vec![] }, sp, &opt, gamma),
        ("bsearch", "poly") => {
            let iv = fs(&h["interval"]);
            bs(Neg(Poly::new(p)), sp, &opt, (iv[0], iv[1]), &Options::new(u(&h["bmax"]), f(&h["btol"])))
        }
        ("feas", "pursuit") => feas(Pursuit::new(p), sp, &opt),
        ("optim", "pursuit") => optim(Pursuit::new(p), sp, &opt, -f(&p["r"])),
        ("feas", "lmi") => feas(LMIOracle::new(mats(), matrix(&p["b"])), sp, &opt),
        ("feas", "lmiold") => feas(LMIOldOracle::new(mats(), matrix(&p["b"])), sp, &opt),
        ("feas", "lmi0") => feas(Lmi0(LMI0Oracle::new(mats())), sp, &opt),
        ("optim", "lmi") => optim(LmiOptim { c: arr("c"), a: LMIOracle::new(mats(), matrix(&p["b"])) }, sp, &opt, gamma),
        ("optim", "profit") => optim(ProfitOracle::new(p3(), arr("el"), arr("price")), sp, &opt, gamma),
        ("optim", "profitrb") => {
            let e = fs(&p["unc"]);
            optim(ProfitRbOracle::new(p3(), arr("el"), arr("price"), (e[0], e[1], e[2], e[3], e[4])), sp, &opt, gamma)
        }
        ("optimq", "profitq") => optim_q(ProfitOracleQ::new(p3(), arr("el"), arr("price")), sp, &opt, gamma),
        ("optim", "quasi") => optim(MyOracle::default(), sp, &opt, gamma),
        ("optim", "lowpass") => {
            let o = create_lowpass_case(u(&h["n"]));
            let g = o.sp_sq;
            optim(o, sp, &opt, g)
        }
        (a, b) => panic!("HARNESS: run {a} {b}"),
    });
    let mut o = h.as_object().unwrap().clone();
    o.insert("out".into(), out);
    Value::Object(o)
}
