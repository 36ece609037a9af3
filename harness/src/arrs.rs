//! Array programs over a small register file.
use crate::{f, fs, guarded, num, nums, s, u};
use ellalgo_rs::arr::{self, Arr};
use serde_json::{json, Value};

fn dump(a: &Arr) -> Value {
    json!({"r": a.rows(), "c": a.cols(), "d": nums(a.data())})
}

fn apply(op: &Value, regs: &mut [Arr]) -> Value {
    let k = |n: &str| u(&op[n]);
    let sc = |n: &str| f(&op[n]);
    let done = |regs: &mut [Arr], r: Arr| {
        regs[u(&op["to"])] = r;
        json!({})
    };
    let src = |n: &str, regs: &[Arr]| regs[u(&op[n])].clone();
    match s(&op["op"]) {
        // construction
        "new" => done(regs, Arr::new(k("n"))),
        "ones" => done(regs, Arr::ones(k("n"))),
        "zeros" => done(regs, Arr::zeros(k("r"), k("c"))),
        "full" => done(regs, Arr::full(k("r"), k("c"), sc("s"))),
        "eye" => done(regs, Arr::eye(k("n"))),
        "from" => done(regs, Arr::from(fs(&op["v"]))),
        "from_slice" => {
            let v = fs(&op["v"]);
            done(regs, <Arr as From<&[f64]>>::from(&v[..]))
        }
        "into" => done(regs, fs(&op["v"]).into()),
        "from_fn" => {
            let (a, b) = (sc("a"), sc("b"));
            done(regs, Arr::from_fn(k("n"), |i| a * i as f64 + b))
        }
        "from_shape_vec" => done(regs, Arr::from_shape_vec(k("r"), k("c"), fs(&op["v"]))),
        "with_data" => done(regs, Arr::with_data(fs(&op["v"]), k("r"), k("c"))),
        "from_diag" => {
            let r = Arr::from_diag(&regs[k("x")]);
            done(regs, r)
        }
        "row" => {
            let r = regs[k("x")].row(k("i"));
            done(regs, r)
        }
        "same_shape" => {
            let r = arr::make_same_shape(&regs[k("x")]);
            done(regs, r)
        }
        "clone" => {
            let r = src("x", regs);
            done(regs, r)
        }
        "linspace" => done(regs, arr::linspace(sc("a"), sc("b"), k("n"))),
        "arange" => done(regs, arr::arange(sc("a"), sc("b"))),
        // access
        "get" => {
            let a = &mut regs[k("x")];
            let (i, j) = (k("i"), k("j"));
            json!({"v": [num(a.get(i, j)), num(a.at(i, j)), num(a[(i, j)]), num(*a.at_mut(i, j))]})
        }
        "get1" => json!({"v": [num(regs[k("x")][k("i")])]}),
        "set" => {
            regs[k("x")].set(k("i"), k("j"), sc("s"));
            json!({})
        }
        "set_at" => {
            *regs[k("x")].at_mut(k("i"), k("j")) = sc("s");
            json!({})
        }
        "set_idx2" => {
            regs[k("x")][(k("i"), k("j"))] = sc("s");
            json!({})
        }
        "set_idx" => {
            regs[k("x")][k("i")] = sc("s");
            json!({})
        }
        "shape" => {
            let a = &regs[k("x")];
            json!({"len": a.len(), "size": a.size(), "rows": a.rows(), "cols": a.cols(), "m": a.is_2d(), "e": a.is_empty(), "it": a.iter().count()})
        }
        "eq" => json!({"b": regs[k("x")] == regs[k("y")]}),
        // scalars
        "add_s" => {
            regs[k("x")] += sc("s");
            json!({})
        }
        "sub_s" => {
            regs[k("x")] -= sc("s");
            json!({})
        }
        "mul_s" => {
            regs[k("x")] *= sc("s");
            json!({})
        }
        "div_s" => {
            regs[k("x")] /= sc("s");
            json!({})
        }
        "ref_mul_s" => {
            let r = &regs[k("x")] * sc("s");
            done(regs, r)
        }
        "own_mul_s" => {
            let r = src("x", regs) * sc("s");
            done(regs, r)
        }
        "s_mul_ref" => {
            let r = sc("s") * &regs[k("x")];
            done(regs, r)
        }
        "s_mul_own" => {
            let r = sc("s") * src("x", regs);
            done(regs, r)
        }
        "ref_div_s" => {
            let r = &regs[k("x")] / sc("s");
            done(regs, r)
        }
        "own_div_s" => {
            let r = src("x", regs) / sc("s");
            done(regs, r)
        }
        "neg_ref" => {
            let r = -&regs[k("x")];
            done(regs, r)
        }
        "neg_own" => {
            let r = -src("x", regs);
            done(regs, r)
        }
        // arrays
        "add_assign" => {
            let y = src("y", regs);
            regs[k("x")] += &y;
            json!({})
        }
        "sub_assign" => {
            let y = src("y", regs);
            regs[k("x")] -= &y;
            json!({})
        }
        "own_add" => {
            let r = src("x", regs) + &regs[k("y")];
            done(regs, r)
        }
        "own_sub" => {
            let r = src("x", regs) - &regs[k("y")];
            done(regs, r)
        }
        "own_mul" => {
            let r = src("x", regs) * &regs[k("y")];
            done(regs, r)
        }
        "ref_add" => {
            let r = &regs[k("x")] + &regs[k("y")];
            done(regs, r)
        }
        "ref_sub" => {
            let r = &regs[k("x")] - &regs[k("y")];
            done(regs, r)
        }
        "ref_mul" => {
            let r = &regs[k("x")] * &regs[k("y")];
            done(regs, r)
        }
        "dot_mv" => {
            let r = regs[k("x")].dot_mv(&regs[k("y")]);
            done(regs, r)
        }
        "dot" => json!({"v": [num(regs[k("x")].dot(&regs[k("y")]))]}),
        "outer" => {
            let r = regs[k("x")].outer(&regs[k("y")]);
            done(regs, r)
        }
        "rank1" => {
            let y = src("y", regs);
            regs[k("x")].rank_one_update(sc("s"), &y);
            json!({})
        }
        "copy_from" => {
            let y = src("y", regs);
            regs[k("x")].copy_from(&y);
            json!({})
        }
        "sum" => json!({"v": [num(regs[k("x")].sum())]}),
        "map" => {
            let (a, b) = (sc("a"), sc("b"));
            let r = regs[k("x")].map(|t| a * t + b);
            done(regs, r)
        }
        "iter_mut" => {
            let a = sc("s");
            for v in regs[k("x")].iter_mut() {
                *v = a - *v;
            }
            json!({})
        }
        "data_mut" => {
            let a = sc("s");
            for v in regs[k("x")].data_mut() {
                *v = a - *v;
            }
            json!({})
        }
        "cos" => {
            let r = arr::cos(&regs[k("x")]);
            done(regs, r)
        }
        "ln" => {
            let r = arr::ln(&regs[k("x")]);
            done(regs, r)
        }
        "abs" => {
            let r = arr::abs(&regs[k("x")]);
            done(regs, r)
        }
        "exp" => {
            let r = arr::exp(&regs[k("x")]);
            done(regs, r)
        }
        "sqrt" => {
            let r = arr::sqrt(&regs[k("x")]);
            done(regs, r)
        }
        o => panic!("HARNESS: op {o}"),
    }
}

pub fn run(h: &Value) -> Value {
    let n = u(&h["n"]);
    let mut regs: Vec<Arr> = (0..n).map(|_| Arr::new(0)).collect();
    let mut log = vec![];
    for op in h["ops"].as_array().unwrap() {
        let rs = &mut regs;
        let out = guarded(|| apply(op, rs));
        let mut e = op.as_object().unwrap().clone();
        e.insert("out".into(), out);
        e.insert("regs".into(), Value::Array(regs.iter().map(dump).collect()));
        log.push(Value::Object(e));
    }
    let mut o = h.as_object().unwrap().clone();
    o.remove("ops");
    o.insert("log".into(), json!(log));
    Value::Object(o)
}
