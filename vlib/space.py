"""P06, P09-P12: the ellipsoidal search spaces."""
import json, math, os
from .core import fmt, fmts

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def spd(rng, n, scale):
    """A random well-conditioned positive definite matrix."""
    a = [[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]
    m = [[sum(a[i][k] * a[j][k] for k in range(n)) / n for j in range(n)] for i in range(n)]
    d = [rng.uniform(0.3, 1.5) for _ in range(n)]
    w = [2.0 ** rng.randint(-3, 3) for _ in range(n)]
    r = [[0.0] * n for _ in range(n)]
    weak = 1.0
    k = rng.random()
    if k < 0.08:                    # hardly correlated
        weak = 10 ** -rng.uniform(4, 9)
    elif k < 0.2:                   # some factors tiny, some not
        f = [[1.0 if i == j else 0.0 if rng.random() < 0.2 else rng.gauss(0, 0.5) if rng.random() < 0.6 else rng.choice([1, -1]) * 10 ** -rng.uniform(4, 9) for j in range(n)] for i in range(n)]
        up = rng.random() < 0.5     # with rows before or after
        m = [[sum(d[t] * f[i][t] * f[j][t] for t in range(n) if (t >= max(i, j) if up else t <= min(i, j))) for j in range(n)] for i in range(n)]
        d = [0.0] * n
    for i in range(n):
        for j in range(i + 1):
            v = (m[i][j] * (1.0 if i == j else weak) + (d[i] if i == j else 0.0)) * w[i] * w[j] * scale
            r[i][j] = r[j][i] = v
    return r


def start(rng, n, ctor, wild=True):
    """Constructor data of one ellipsoid: (kappa, matrix, diag, centre); wild: also extreme magnitudes
    (not for very long histories, which shrink the shape by many more)."""
    scale = rng.choice([1.0, 1.0, 1e-6, 1e6, 1e-12, 1e12, 10.0, 0.01] + ([1e-60, 1e60, 10 ** rng.uniform(-60, 60)] if wild else []))
    r = math.sqrt(scale)
    xc = [rng.uniform(-3, 3) * r for _ in range(n)]
    if rng.random() < 0.15:
        xc = [0.0] * n
    o = {"xc": fmts(xc), "ctor": ctor}
    if ctor == "scalar":
        o["kappa"] = fmt(scale * rng.uniform(0.5, 2))
    elif ctor == "diag":
        o["diag"] = fmts([scale * 10 ** rng.uniform(-2, 2) for _ in range(n)])
    else:
        o["kappa"] = fmt(rng.choice([1.0, 0.25, 3.7, 1e3]))
        o["mat"] = [fmts(row) for row in spd(rng, n, scale)]
    return o, r


def gradient(rng, n):
    k = rng.random()
    if k < 0.15:
        g = [0.0] * n
        g[rng.randrange(n)] = rng.choice([1.0, -1.0])
    elif k < 0.3:
        g = [rng.choice([0.0, 0.0, 1.0, -1.0]) for _ in range(n)]
        if not any(g):
            g[rng.randrange(n)] = 1.0
    else:
        g = [rng.gauss(0, 1) for _ in range(n)]
    m = rng.choice([1.0, 1.0, 1.0, 1.0, 1e-6, 1e6, 1e-3, 40.0, 1e-12, 1e12, 10 ** rng.uniform(-25, 25)])
    return [x * m for x in g]


def near(rng):
    """Close to one."""
    return 1 + rng.choice([-1, 1]) * 10 ** -rng.uniform(2, 7)


def a_cut(rng, n, kinds, mild):
    """A cut by depths relative to the half-width; away from the ties of the case distinction."""
    top = 0.5 if mild else 0.93
    kind = rng.choice(kinds)
    op = {"op": "cut", "g": fmts(gradient(rng, n)), "par": False, "how": "bias", "rel0": "0.0"}
    if kind == "bias":
        r0 = rng.choice([0.0, rng.uniform(0, top), rng.uniform(0, 0.2), near(rng) / n])
    elif kind == "nbias":      # not deep enough to shrink; the update is prescribed all the same
        r0 = -rng.choice([rng.uniform(0, 1 / n), rng.uniform(0, 0.8), near(rng) / n])
    elif kind == "central":
        op["how"], r0 = "central", 0.0
    elif kind == "q":
        op["how"] = "q"
        r0 = rng.choice([rng.uniform(-0.95 / n, top), rng.uniform(-0.95 / n, top), -(1 - 10 ** -rng.uniform(1, 10)) / n,
                         near(rng) / n])
    elif kind == "pbias":
        r0 = rng.choice([0.0, rng.uniform(0, top)])
        op["rel1"] = fmt(rng.choice([min(0.97, r0 + rng.uniform(0.05, 0.6)), rng.uniform(1.05, 3)]))
        op["par"] = True
    elif kind == "pcentral":
        op["how"], r0, op["par"] = "central", 0.0, True
        op["rel1"] = fmt(rng.choice([rng.uniform(0.08, 0.97), rng.uniform(1.05, 3)]))
    elif kind == "pq":
        op["how"], op["par"] = "q", True
        while True:
            r0 = rng.uniform(-0.95, top)
            r1 = rng.choice([min(0.97, r0 + rng.uniform(0.06, 0.8)), rng.uniform(1.05, 3)])
            k = rng.random()
            if k < 0.1:             # hardly any effect
                r1 = rng.uniform(1.1 / n, 0.95)
                r0 = -(1 - 10 ** -rng.uniform(1, 6)) / (n * r1)
                break
            if k < 0.2:             # one plane outside
                r0, r1 = -rng.uniform(1.02, 3), -rng.uniform(0.05, 0.93)
                break
            e = 1 + n * r0 * min(r1, 1.0)
            if r1 > r0 + 0.05 and e > 0.02:
                break
        op["rel1"] = fmt(r1)
    elif kind == "pnone":      # a parallel-style cut without a second bound
        op["how"] = rng.choice(["bias", "central", "q"])
        op["par"] = True
        r0 = rng.uniform(0, top)
    # rejected and ineffective ones
    elif kind == "xbias":
        r0 = rng.choice([rng.uniform(1.001, 1.2), rng.uniform(1.2, 50)])
    elif kind == "xq":
        op["how"], r0 = "q", rng.choice([rng.uniform(1.001, 3), -rng.uniform(1.01, 3) / n, -rng.uniform(3, 1e3)])
    elif kind == "xpar":
        op["par"] = True
        c = rng.randrange(4)
        if c == 0:
            r0 = rng.uniform(0, 0.9)
            op["rel1"] = fmt(r0 - rng.uniform(0.01, 0.5))
        elif c == 1:
            op["how"], r0 = "central", 0.0
            op["rel1"] = fmt(-rng.uniform(0.01, 2))
        elif c == 2:
            op["how"] = "q"
            r0 = -rng.uniform(1.5, 3)
            op["rel1"] = fmt(-rng.uniform(1.05, 1.4))
        else:
            op["how"] = "q"
            r0 = -rng.uniform(0.8, 1.0)
            op["rel1"] = fmt(rng.uniform(0.9, 0.99) if n == 2 else rng.uniform(0.6, 0.95))
    elif kind == "xpar2":       # accepted only through the single cut
        op["par"] = True
        r0 = rng.uniform(1.01, 2)
        op["rel1"] = fmt(r0 + rng.uniform(0.1, 1))
    op["rel0"] = fmt(r0)
    return op


def last_cut(rng, n):
    """A very deep cut or a thin slab. It leaves a flat shape, on which rounding shows, so it ends a history."""
    op = {"op": "cut", "g": fmts(gradient(rng, n)), "par": False, "how": rng.choice(["bias", "q"]), "rel0": fmt(1 - 10 ** -rng.uniform(1.2, 4))}
    if rng.random() < 0.6:
        w = 10 ** -rng.uniform(1.3, 2.5)
        r0 = rng.choice([0.0, 0.0, rng.uniform(0, 0.9), 0.95 - w])
        op.update(par=True, rel0=fmt(r0), rel1=fmt(r0 + w))
        if r0 == 0.0:
            op["how"] = rng.choice(["bias", "q", "central"])
    return op


GOOD = ["bias", "bias", "central", "q", "pbias", "pcentral", "pq", "pnone"]
BAD = ["xbias", "xq", "xpar", "xpar2"]


def history(rng, objs, steps, kinds, mild=False, zs=False, extra=0.0, twins=False):
    n = len(objs[0]["xc"])
    impl = [o["impl"] for o in objs]
    nod = [bool(o.get("nodefer")) for o in objs]
    r = math.sqrt(float(objs[0].get("kappa", "1.0")) if objs[0]["ctor"] == "scalar" else 1.0)
    ops = []
    extreme = steps <= 40
    if extreme and rng.random() < 0.25:
        steps = rng.randint(0, 3)
    for s in range(steps + extreme):
        if s < steps and rng.random() < extra:
            if rng.random() < 0.5 and len(impl) < 4:
                k = rng.randrange(len(impl))
                ops.append({"op": "clone", "on": [k]})
                impl.append(impl[k])
                nod.append(nod[k])
            else:
                k = rng.randrange(len(impl))
                ops.append({"op": "setxc", "on": [k], "x": fmts([rng.gauss(0, r) for _ in range(n)])})
            continue
        op = a_cut(rng, n, kinds, mild) if s < steps else last_cut(rng, n)
        op["on"] = list(range(len(impl))) if twins else [rng.randrange(len(impl))]
        if zs:
            op["zs"] = [fmts([rng.gauss(0, 1) for _ in range(n)]) for _ in range(zs)]
        ops.append(op)
    return {"kind": "space", "objs": objs, "ops": ops, "impl": impl, "nodefer": nod, "twins": twins, "ties": False}


def obj(rng, n, impl, ctor=None, nodefer=False, wild=True):
    ctor = ctor or rng.choice(["scalar", "diag", "matrix", "cov"] if impl == "ell" else ["scalar", "diag", "matrix"])
    o, _ = start(rng, n, ctor, wild)
    o["impl"], o["nodefer"] = impl, nodefer
    return o


def equivalents(rng, n):
    """The same ellipsoid through different constructors."""
    o, _ = start(rng, n, "scalar")
    k = float(o["kappa"])
    res = [dict(o, impl="ell", nodefer=False)]
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    kind = rng.randrange(3)
    if kind == 0:
        alt = [("diag", {"diag": fmts([k] * n)}), ("matrix", {"kappa": fmt(k), "mat": [fmts(r) for r in eye]}),
               ("cov", {"mat": [fmts([k * x for x in r]) for r in eye]})]
    elif kind == 1:
        d = [k * 10 ** rng.uniform(-2, 2) for _ in range(n)]
        res = [{"xc": o["xc"], "ctor": "diag", "diag": fmts(d), "impl": "ell", "nodefer": False}]
        m = [fmts([d[i] if i == j else 0.0 for j in range(n)]) for i in range(n)]
        alt = [("matrix", {"kappa": "1.0", "mat": m}), ("cov", {"mat": m})]
    else:
        q = spd(rng, n, 1.0)
        m = [fmts(r) for r in q]
        m4 = [fmts([x / 4 for x in r]) for r in q]
        res = [{"xc": o["xc"], "ctor": "cov", "mat": m, "impl": "ell", "nodefer": False}]
        alt = [("matrix", {"kappa": "1.0", "mat": m}), ("matrix", {"kappa": "4.0", "mat": m4})]
    for ctor, data in alt:
        res.append(dict(data, xc=o["xc"], ctor=ctor, impl="ell", nodefer=rng.random() < 0.5))
    return res


def dims(rng, big):
    return rng.choice([2, 2, 3, 3, 4, 5, 6] + big)


SIZES = list(range(7, 23))      # every size gets at least one history


def generated(ctx, depth, small, impls):
    """All short planar histories of the specification, for replay."""
    out = os.path.join(ctx.work, "gen.ndjson")
    cfg = ("CONSTANTS Depth = %d Small = %s\nINIT Init\nNEXT Next\nINVARIANTS Safe Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (depth, "TRUE" if small else "FALSE"))
    ctx.model_check("MC_EllSpace", cfg, {"OUT": out})
    hs, seen = [], set()
    for line in open(out):
        g = json.loads(line)
        g = json.loads(g) if isinstance(g, str) else g
        key = json.dumps(g)
        if key in seen:
            continue
        seen.add(key)
        st, ops = g[0], g[1:]
        objs = []
        for im in impls:
            ctor = st["ctor"] if im == "ell" or st["ctor"] != "cov" else "matrix"
            o = {"impl": im, "nodefer": False, "xc": st["c"], "ctor": ctor, "kappa": st["kappa"], "mat": st["m"],
                 "diag": [st["m"][i][i] for i in range(2)]}
            objs.append(o)
        for op in ops:
            op["on"] = list(range(len(objs)))
            op["zs"] = [["1.0", "0.3"], ["-1.0", "0.4"]]
        hs.append({"kind": "space", "objs": objs, "ops": ops, "impl": list(impls), "nodefer": [False] * len(impls),
                   "twins": len(objs) > 1, "ties": False})
    ctx.detail["planar histories generated from the specification"] = len(hs)
    return hs


def healthy(o):
    """Smallest pivot of the correlation matrix (only for the coverage count)."""
    try:
        n, k = len(o["c"]), float(o["kappa"])
        m = [[float(x) * k for x in r] for r in o["m"]]
        d = [math.sqrt(m[i][i]) for i in range(n)]
        L = [[0.0] * n for _ in range(n)]
        low = 1.0
        for i in range(n):
            for j in range(i + 1):
                v = m[i][j] / d[i] / d[j] - sum(L[i][q] * L[j][q] for q in range(j))
                if i == j:
                    low = min(low, v)
                    L[i][i] = math.sqrt(v)
                else:
                    L[i][j] = v / L[j][j]
        return low > 1e-5
    except (ValueError, ZeroDivisionError):
        return False


def run(ctx, hs):
    rec = ctx.harness(hs)
    judged = {"Success": 0, "NoSoln": 0, "NoEffect": 0}
    for x in rec:
        lg = x.get("log", [])
        for a, b in zip(lg, lg[1:]):
            if b["op"] == "cut":
                for k, st in zip(b["on"], b["st"]):
                    if st in judged and healthy(a["objs"][k]):
                        judged[st] += 1
    for k, v in judged.items():
        ctx.detail["judged " + k] = ctx.detail.get("judged " + k, 0) + v
    ctx.detail["cuts"] = ctx.detail.get("cuts", 0) + sum(len(x.get("log", [])) - 1 for x in rec)
    ctx.validate("T_EllSpace", rec, CFG)
    ctx.log("validated %d histories" % len(rec))


def marathon(rng, objs, steps):
    """Central cuts until the shape is many orders of magnitude smaller.  (Not for twins: their rounding errors
    grow exponentially with the number of cuts, relative to the shrinking shape; every step by itself stays exact.)"""
    return history(rng, objs, steps, ["central", "central", "central", "central", "q", "bias"], mild=True)


def p06(ctx):
    run(ctx, generated(ctx, ctx.scale(2, 2), not ctx.thorough(), ["ell", "stable"]))
    rng, hs = ctx.rng, []
    for i in range(ctx.sample(260, 4000)):
        n = dims(rng, []) if i % 20 else rng.choice([10, 16])
        impl = ["ell", "stable", "ell"][i % 3]
        hs.append(history(rng, [obj(rng, n, impl, nodefer=i % 3 == 2)], ctx.scale(25, 40) if n < 9 else 8, GOOD + ["xpar", "xq"], zs=3))
    for n in SIZES + [65, 100]:
        hs.append(history(rng, [obj(rng, n, rng.choice(["ell", "stable"]))], 4 if n < 40 else 1, GOOD, zs=3))
    run(ctx, hs)


def p09(ctx):
    run(ctx, generated(ctx, 2, not ctx.thorough(), ["ell"]))
    rng, hs = ctx.rng, []
    for i in range(ctx.sample(240, 3000)):
        n = dims(rng, [8, 12, 17] if i % 4 == 0 else [])
        hs.append(history(rng, [obj(rng, n, "ell", nodefer=i % 5 == 4)], 30, GOOD + ["nbias"] * (i % 2)))
    for i in range(ctx.sample(8, 60)):
        hs.append(history(rng, [obj(rng, dims(rng, []), "ell", nodefer=i % 5 == 4, wild=False)], ctx.scale(250, 400), GOOD, mild=True))
    for n in SIZES + [24, 33, 48, 65, 100] * ctx.scale(1, 8):
        hs.append(history(rng, [obj(rng, n, "ell", nodefer=rng.random() < 0.3)], 4 if n < 50 else 2, GOOD))
    for k in range(ctx.scale(2, 6)):
        hs.append(marathon(rng, [obj(rng, 2, "ell", nodefer=k % 2 == 1, wild=False)], 850))
    run(ctx, hs)


def p10(ctx):
    run(ctx, generated(ctx, 2, not ctx.thorough(), ["ell", "stable"]))
    rng, hs = ctx.rng, []
    for i in range(ctx.sample(260, 4000)):
        n = dims(rng, [9])
        impl = ["ell", "stable"][i % 2]
        hs.append(history(rng, [obj(rng, n, impl, nodefer=i % 6 == 4)], 30, GOOD + BAD * 3, mild=True, extra=0.15))
    for n in SIZES:
        hs.append(history(rng, [obj(rng, n, rng.choice(["ell", "stable"]))], 5, GOOD + BAD * 3, mild=True, extra=0.15))
    run(ctx, hs)


def p11(ctx):
    rng, hs = ctx.rng, []
    for i in range(ctx.sample(260, 4000)):
        n = dims(rng, [9])
        if i % 2:
            o = obj(rng, n, "ell")
            objs = [o, dict(o, nodefer=True)]
        else:
            objs = equivalents(rng, n)
        hs.append(history(rng, objs, 25, GOOD + BAD + ["nbias"] * (i % 5 == 4), mild=i % 3 > 0, twins=True))
    for i in range(ctx.sample(8, 60)):
        o = obj(rng, dims(rng, []), "ell")
        hs.append(history(rng, [o, dict(o, nodefer=True)], ctx.scale(120, 160), GOOD + BAD, mild=True, twins=True))
    for n in SIZES:
        o = obj(rng, n, "ell")
        hs.append(history(rng, [o, dict(o, nodefer=True)], 4, GOOD + BAD, twins=True))
        hs.append(history(rng, equivalents(rng, n), 3, GOOD, twins=True))
    run(ctx, hs)


def p12(ctx):
    run(ctx, generated(ctx, 2, not ctx.thorough(), ["ell", "stable"]))
    rng, hs = ctx.rng, []
    for i in range(ctx.sample(260, 4000)):
        n = dims(rng, [9, 13] if i % 4 == 0 else [])
        o = obj(rng, n, "ell", ctor=rng.choice(["scalar", "diag", "matrix", "matrix"]))
        objs = [o, dict(o, impl="stable")]
        hs.append(history(rng, objs, 25, GOOD + BAD + ["nbias"] * (i % 5 == 4), mild=i % 3 > 0, twins=True))
    for i in range(ctx.sample(8, 60)):
        o = obj(rng, dims(rng, []), "ell", ctor=rng.choice(["scalar", "diag", "matrix"]))
        hs.append(history(rng, [o, dict(o, impl="stable")], ctx.scale(120, 160), GOOD + BAD, mild=True, twins=True))
    for n in SIZES + [20, 24, 33, 65] * ctx.scale(1, 8):
        o = obj(rng, n, "ell", ctor=rng.choice(["diag", "matrix"]))
        hs.append(history(rng, [o, dict(o, impl="stable")], 3, GOOD, twins=True))
    for i in range(ctx.scale(2, 6)):
        hs.append(marathon(rng, [obj(rng, 2, "stable", wild=False)], 700))
    run(ctx, hs)


_T = "TLA+ spec of the ellipsoid and its cuts (model checked on planar histories, all replayed in the code); recorded cut histories validated step by step in 50-digit arithmetic"
CHECKS = {"P06": p06, "P09": p09, "P10": p10, "P11": p11, "P12": p12}
NOTES = {
    "P06": (_T, "Containment is judged from the recorded ellipsoids before and after each cut, independently of the update formulas, at sampled points of the rims of the kept part (dimensions 2-22, also 65 and 100), including very deep cuts and thin slabs. Near-degenerate shapes (correlation pivots below 1e-5) are skipped."),
    "P09": (_T, "Dimensions 2-24, also 33, 48, 65 and 100; magnitudes 1e-60..1e60; histories up to 850 cuts, very deep cuts and thin slabs last, also bias cuts of negative depth; accuracy 1e-11 relative to the half-widths. Zero-width slabs and zero gradients excluded."),
    "P10": (_T, "Histories mixing accepted and rejected cuts, recentring and copying; unchanged means identical representation (plain) or identical support function (stable)."),
    "P11": (_T, "Twin spaces under the same cuts, both scaling modes and all constructors."),
    "P12": (_T, "Plain and stable spaces as twins, each also against the specification; the stable one is observed through its public measure on copies."),
}
