//! Search spaces (Ell, EllStable) driven by histories of cuts, recentring and copying.
use crate::calc::status;
use crate::{b, f, fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use serde_json::{json, Value};

#[derive(Clone)]
pub enum Sp {
    E(Ell),
    S(EllStable),
}

fn matrix(v: &Value) -> Arr {
    let rows: Vec<Vec<f64>> = v.as_array().unwrap().iter().map(fs).collect();
    let n = rows.len();
    Arr::from_shape_vec(n, n, rows.concat())
}

pub fn make(o: &Value) -> Sp {
    let xc = Arr::from(fs(&o["xc"]));
    let stable = s(&o["impl"]) == "stable";
    macro_rules! build {
        ($T:ident, $W:ident) => {
            match s(&o["ctor"]) {
                "scalar" => Sp::$W($T::new_with_scalar(f(&o["kappa"]), xc)),
                "diag" => Sp::$W($T::new(Arr::from(fs(&o["diag"])), xc)),
                "matrix" => Sp::$W($T::new_with_matrix(f(&o["kappa"]), matrix(&o["mat"]), xc)),
                "cov" => Sp::E(Ell::from_covariance(matrix(&o["mat"]), xc)),
                k => panic!("HARNESS: ctor {k}"),
            }
        };
    }
    let mut sp = if stable { build!(EllStable, S) } else { build!(Ell, E) };
    if let Sp::E(e) = &mut sp {
        e.no_defer_trick = o.get("nodefer").map(b).unwrap_or(false);
    }
    sp
}

/// The squared half-width of the ellipsoid along g, observed on a copy.
fn width2(e: &EllStable, g: Vec<f64>) -> f64 {
    let mut c = e.clone();
    c.update_central_cut(&(Arr::from(g), SingleCut(0.0)));
    c.tsq()
}

/// The projected state: centre, shape P of {x : (x-c)' P^-1 (x-c) <= 1}, measure.
fn project(sp: &Sp) -> Value {
    match sp {
        Sp::E(e) => {
            let n = e.xc.len();
            let m: Vec<Value> = (0..n).map(|i| nums(&(0..n).map(|j| e.mq.at(i, j)).collect::<Vec<_>>())).collect();
            json!({"c": nums(e.xc().data()), "m": m, "kappa": num(e.kappa), "tsq": num(e.tsq())})
        }
        Sp::S(e) => {
            let c = e.xc();
            let n = c.len();
            let unit = |i: usize, a: f64| {
                let mut g = vec![0.0; n];
                g[i] = a;
                g
            };
            let sc: Vec<f64> = (0..n).map(|i| width2(e, unit(i, 1.0)).sqrt()).collect();
            let m: Vec<Value> = (0..n)
                .map(|i| {
                    nums(
                        &(0..n)
                            .map(|j| {
                                if i == j {
                                    return width2(e, unit(i, 1.0));
                                }
                                // entries relative to the half-widths along the axes
                                let mut g = unit(i, 1.0 / sc[i]);
                                g[j] = 1.0 / sc[j];
                                let (a, b2) = (width2(e, unit(i, 1.0 / sc[i])), width2(e, unit(j, 1.0 / sc[j])));
                                (width2(e, g) - a - b2) / 2.0 * sc[i] * sc[j]
                            })
                            .collect::<Vec<_>>(),
                    )
                })
                .collect();
            json!({"c": nums(c.data()), "m": m, "kappa": "1", "tsq": num(e.tsq())})
        }
    }
}

fn cut<S: SearchSpace<ArrayType = Arr>>(e: &mut S, op: &Value) -> CutStatus
where
    SingleCut: ellalgo_rs::cutting_plane::UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: ellalgo_rs::cutting_plane::UpdateByCutChoice<S, ArrayType = Arr>,
{
    let g = Arr::from(fs(&op["g"]));
    let b0 = f(&op["b0"]);
    if b(&op["par"]) {
        let c = (g, ParallelCut(b0, op.get("b1").map(f)));
        match s(&op["how"]) {
            "bias" => e.update_bias_cut(&c),
            "central" => e.update_central_cut(&c),
            _ => e.update_q(&c),
        }
    } else {
        let c = (g, SingleCut(b0));
        match s(&op["how"]) {
            "bias" => e.update_bias_cut(&c),
            "central" => e.update_central_cut(&c),
            _ => e.update_q(&c),
        }
    }
}

pub fn run(h: &Value) -> Value {
    let mut objs: Vec<Sp> = h["objs"].as_array().unwrap().iter().map(make).collect();
    let mut log = vec![json!({"op": "init", "on": [], "st": [], "objs": objs.iter().map(project).collect::<Vec<_>>()})];
    for op in h["ops"].as_array().unwrap() {
        let mut e = op.as_object().unwrap().clone();
        // depths relative to the current half-width of the first object: b = rel * tau
        if let Some(rel) = op.get("rel0") {
            let mut probe = objs[u(&op["on"][0])].clone();
            let g = Arr::from(fs(&op["g"]));
            let t = match &mut probe {
                Sp::E(x) => {
                    x.update_central_cut(&(g, SingleCut(0.0)));
                    x.tsq()
                }
                Sp::S(x) => {
                    x.update_central_cut(&(g, SingleCut(0.0)));
                    x.tsq()
                }
            };
            let tau = if t > 0.0 { t.sqrt() } else { 1.0 };
            e.insert("b0".into(), num(f(rel) * tau));
            if let Some(r1) = op.get("rel1") {
                e.insert("b1".into(), num(f(r1) * tau));
            }
        }
        let opv = Value::Object(e.clone());
        let mut st = vec![];
        match s(&op["op"]) {
            "cut" => {
                for k in op["on"].as_array().unwrap() {
                    let o = &mut objs[u(k)];
                    let r = guarded(|| {
                        json!(status(match o {
                            Sp::E(x) => cut(x, &opv),
                            Sp::S(x) => cut(x, &opv),
                        }))
                    });
                    st.push(if r.is_object() { json!("panic") } else { r });
                }
            }
            "setxc" => {
                for k in op["on"].as_array().unwrap() {
                    let x = Arr::from(fs(&op["x"]));
                    match &mut objs[u(k)] {
                        Sp::E(e) => e.set_xc(x),
                        Sp::S(e) => e.set_xc(x),
                    }
                }
            }
            "clone" => {
                let c = objs[u(&op["on"][0])].clone();
                objs.push(c);
            }
            k => panic!("HARNESS: op {k}"),
        }
        e.insert("st".into(), json!(st));
        e.insert("objs".into(), json!(objs.iter().map(project).collect::<Vec<_>>()));
        log.push(Value::Object(e));
    }
    let mut o = h.as_object().unwrap().clone();
    o.remove("ops");
    o.insert("log".into(), json!(log));
    Value::Object(o)
}
