"""P28: complete runs of the drivers on convex problems."""
import itertools, math, os
from .core import fmt, fmts
from .small import generated
from . import profit as pf

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def norm(v):
    return math.sqrt(sum(t * t for t in v))


def dot(u, v):
    return sum(p * q for p, q in zip(u, v))


def unit(rng, n):
    while True:
        v = [rng.gauss(0, 1) for _ in range(n)]
        m = norm(v)
        if m > 0.1:
            return [t / m for t in v]


def space(rng, xc, size):
    """An ellipsoid around xc that contains the ball of radius `size` around it."""
    n = len(xc)
    k = rng.random()
    impl = rng.choice(["ell", "stable"])
    if k < 0.4:
        return {"impl": impl, "ctor": "scalar", "kappa": fmt((size * 1.01) ** 2), "xc": fmts(xc)}
    if k < 0.7:
        return {"impl": impl, "ctor": "diag", "diag": fmts([(size * rng.uniform(1.01, 4)) ** 2 for _ in range(n)]), "xc": fmts(xc)}
    m = [[(2.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
    for _ in range(2):
        u = unit(rng, n)
        for i in range(n):
            for j in range(n):
                m[i][j] += u[i] * u[j] * 3
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i]
    return {"impl": impl, "ctor": "matrix", "kappa": fmt((size * 1.01) ** 2), "mat": [fmts(r) for r in m], "xc": fmts(xc)}


def mean_axis(s):
    n = len(s["xc"])
    if s["ctor"] == "scalar":
        return math.sqrt(float(s["kappa"]))
    if s["ctor"] == "diag":
        return math.exp(sum(0.5 * math.log(float(t)) for t in s["diag"]) / n)
    return math.sqrt(float(s["kappa"])) * math.sqrt(8.0)


def enough(s, r):
    n = len(s["xc"])
    return int(2 * n * (n + 1) * max(0.0, math.log(mean_axis(s) / r))) + 10


def best(rows, balls, c, z, rng):
    """Good feasible points: line searches from z along random directions and between the points found."""
    n = len(z)

    def reach(x, d):
        t = 1e9
        for a, lo, hi in rows:
            v, s = dot(a, x), dot(a, d)
            if s > 0:
                t = min(t, (hi - v) / s)
            elif s < 0 and lo is not None:
                t = min(t, (lo - v) / s)
        for cc, r in balls:
            y = [p - q for p, q in zip(x, cc)]
            A, B, C = dot(d, d), dot(y, d), dot(y, y) - r * r
            disc = B * B - A * C
            if disc > 0:
                t = min(t, (-B + math.sqrt(disc)) / A)
        return max(0.0, t * (1 - 1e-9))
    pts = []
    x = list(z)
    for k in range(60):
        d = [p / (norm(c) or 1) + rng.gauss(0, 0.7) * (k > 0) for p in c]
        if dot(c, d) <= 0:
            d = [-t for t in d]
        t = reach(x, d) * (0.999 if k % 5 else 0.5)
        y = [p + t * q for p, q in zip(x, d)]
        if all(abs(v) < 1e7 for v in y) and dot(c, y) > dot(c, x):
            x = y
    pts.append(x)
    pts.append([0.9 * p + 0.1 * q for p, q in zip(x, z)])
    return pts


def poly(rng, n, feasible=True, sc=None):
    """Rows and balls true on the ball of radius r around z."""
    sc = sc or 10.0 ** rng.choice([0, 0, 0, 0, 1, -1, -5, 5])
    z = [rng.gauss(0, 2) * sc for _ in range(n)]
    r = sc * 10.0 ** rng.uniform(-2, 0)
    rows, balls = [], []
    for _ in range(rng.choice([1, 2, n, 2 * n, 2 * n + 3])):
        a = [t * 10.0 ** rng.uniform(-0.5, 0.5) for t in unit(rng, n)]
        if rng.random() < 0.3:
            a = [0.0] * n
            a[rng.randrange(n)] = rng.choice([1.0, -1.0, 2.0])
        v, m = dot(a, z), norm(a)
        slack = lambda: m * r * (1 + rng.choice([0.01, 0.3, abs(rng.gauss(0, 5))]))
        rows.append((a, v - slack() if rng.random() < 0.4 else None, v + slack()))
    R = r * rng.choice([1.5, 3, 10, 30])
    cc = [p + (R - r) * 0.5 * q for p, q in zip(z, unit(rng, n))]
    balls.append((cc, R))
    if rng.random() < 0.3:      # the same rows in other units
        u = 10.0 ** rng.uniform(-11, 11)
        rows = [([t * u for t in a], None if lo is None else lo * u, hi * u) for a, lo, hi in rows]
    if not feasible:
        a, lo, hi = rows[0]
        rows.append(([-t for t in a], None, -hi - norm(a) * sc * rng.choice([1e-3, 0.1, 1, 10])))
        rng.shuffle(rows)
    return rows, balls, z, r, sc


def enc(rows, balls, rng, c=None, param=False, par=None):
    p = {"type": "poly", "rows": [dict({"a": fmts(a), "hi": fmt(hi)}, **({"lo": fmt(lo)} if lo is not None else {})) for a, lo, hi in rows],
         "balls": [{"c": fmts(cc), "r": fmt(r)} for cc, r in balls], "rule": rng.choice(["first", "rotate", "deepest"]),
         "par": rng.random() < 0.6 if par is None else par}
    if c is not None:
        p["c"] = fmts(c)
    if param:
        p["param"] = True
    return p


def centre(rng, z, d):
    u = unit(rng, len(z))
    return [p + d * q for p, q in zip(z, u)]


def one_poly(rng, driver):
    n = rng.choice([2, 2, 3, 4, 5] if driver != "bsearch" else [2, 2, 3])
    feasible = rng.random() < 0.85
    rows, balls, z, r, sc = poly(rng, n, feasible, 30.0 if driver == "optimq" else None)
    c = [t * 10.0 ** rng.uniform(-1, 1) for t in unit(rng, n)]
    R = balls[0][1]
    off = rng.choice([0.0, R, 3 * R, 10 * R])
    xc = centre(rng, z, off)
    size = (off + 2 * R) * rng.choice([1.0, 1.0, 1.0, 5.0, 0.4])
    if driver == "bsearch":
        xc = centre(rng, z, R * rng.random())
        size = 4 * R * math.sqrt(n)
    s = space(rng, xc, size)
    h = {"kind": "e2e", "driver": driver, "space": s, "z": fmts(z), "r": fmt(r if feasible else 0.0), "zs": []}
    need = enough(s, r)
    gm = min([norm(a) for a, _, _ in rows] + [2 * R, norm(c)])
    # half-widths that no longer matter next to the ball
    tol = (r * gm * 10.0 ** rng.uniform(-4, -1)) ** 2
    if driver == "feas":
        h["prob"] = enc(rows, balls, rng)
        h["tol"] = rng.choice([fmt(0.0), fmt(tol), fmt(tol), fmt((r * gm * rng.uniform(0.5, 3)) ** 2)])
        h["max"] = rng.choice([need, need, need * 2, 3, 20])
        return h
    h["zs"] = [fmts(x) for x in best(rows, balls, c, z, rng)] if feasible else []
    if driver == "bsearch":
        p = enc(rows, balls, rng, c, True)
        h["prob"] = p
        h["tol"], h["max"] = fmt(tol), enough(s, r * 1e-3)
        top = -dot(c, z)
        w = norm(c) * R
        h["interval"] = fmts(rng.choice([[top - 3 * w, top + w], [top - 3 * w, top + 3 * w], [top - 3 * w, top - 2.5 * w], [top + w, top + 2 * w]]))
        h["bmax"] = rng.choice([50, 50, 50, 6, 0])
        h["btol"] = fmt(w * 10.0 ** rng.uniform(-4, -1))
        return h
    h["prob"] = enc(rows, balls, rng, c, par=False if driver == "optimq" else None)
    h["gamma0"] = fmt(rng.choice([dot(c, z) - 10 * norm(c) * R, dot(c, z) - 1e6, dot(c, z) - norm(c) * r, dot(c, z) + 5 * norm(c) * R]))
    h["tol"] = fmt(tol)
    h["max"] = rng.choice([enough(s, r * 1e-3), enough(s, r * 1e-3), 2000, 30, 5])
    if driver == "optimq":
        h["max"] = rng.choice([2000, 100])
    return h


def sym(rng, m):
    a = [[0.0] * m for _ in range(m)]
    for i in range(m):
        for j in range(i + 1):
            a[i][j] = a[j][i] = rng.gauss(0, 1) if rng.random() < 0.9 else 0.0
    if not any(abs(v) > 0.05 for r in a for v in r):
        a[0][0] = 1.0
    return a


def one_lmi(rng):
    n, m = rng.choice([2, 2, 3, 4]), rng.choice([1, 2, 3, 4])
    F = [sym(rng, m) for _ in range(n)]
    fn = math.sqrt(sum(v * v for f in F for row in f for v in row))
    z = [rng.gauss(0, 1) for _ in range(n)]
    kind = rng.choice(["lmi", "lmi", "lmiold", "lmi0"])
    r = 10.0 ** rng.uniform(-2, 0)
    mz = lambda x: [[sum(F[k][i][j] * x[k] for k in range(n)) for j in range(m)] for i in range(m)]
    # positive definite with margin r * fn at z
    low = [[rng.gauss(0, 1) if j < i else 0.0 for j in range(m)] for i in range(m)]
    g = [[sum(low[i][k] * low[j][k] for k in range(m)) + (r * fn * 1.05 if i == j else 0.0) for j in range(m)] for i in range(m)]
    q = {"type": kind}
    if kind == "lmi0":
        # choose F_1 so that M(z) = g
        if abs(z[0]) < 0.3:
            z[0] = 0.7
        F[0] = [[(g[i][j] - sum(F[k][i][j] * z[k] for k in range(1, n))) / z[0] for j in range(m)] for i in range(m)]
        for i in range(m):
            for j in range(i):
                F[0][i][j] = F[0][j][i]
        fn2 = math.sqrt(sum(v * v for f in F for row in f for v in row))
        r = r * fn / fn2
    else:
        a = mz(z)
        b = [[g[i][j] + a[i][j] for j in range(m)] for i in range(m)]
        for i in range(m):
            for j in range(i):
                b[i][j] = b[j][i]
        q["b"] = [fmts(x) for x in b]
    q["f"] = [[fmts(x) for x in f] for f in F]
    off = rng.choice([0.5, 2.0, 5.0])
    xc = centre(rng, z, off)
    if kind == "lmi0" and rng.random() < 0.3:
        xc = [-t for t in z]
        off = 2 * norm(z)
    s = space(rng, xc, off + r * math.sqrt(n) * 1.1 + 0.5)
    feasible = rng.random() < 0.9
    h = {"kind": "e2e", "driver": "feas", "space": s, "z": fmts(z), "r": fmt(r), "zs": [], "prob": q, "tol": "0.0"}
    h["max"] = rng.choice([enough(s, r), enough(s, r), 5, 30])
    if kind == "lmi" and rng.random() < 0.5:
        # minimise c x; a ball-like bound comes from the initial ellipsoid only through the certificates
        h["driver"] = "optim"
        c = unit(rng, n)
        q["c"] = fmts(c)
        h["tol"] = "1e-10"
        h["gamma0"] = fmt(-dot(c, z) - r - rng.choice([0.0, 1.0, 100.0]))
        h["max"] = rng.choice([enough(s, r * 0.1), 20, 300])
        h["zs"] = [fmts([p - t * q2 for p, q2 in zip(z, c)]) for t in (r, 2 * r, 4 * r, 0.3)]
    if not feasible:
        h["r"] = "0.0"
    return h


def one_profit(rng):
    kind = rng.choice(["profit", "profit", "profitrb", "profitq"])
    while True:
        params, el, pr = pf.instance(rng)
        if sum(el) > 0.9:
            continue
        unc = [rng.uniform(0, 0.3) * el[0], rng.uniform(0, 0.3) * el[1], rng.uniform(0, 0.1) * params[0], rng.uniform(0, 0.1) * params[2], rng.uniform(0, 0.5)] if kind == "profitrb" else [0.0] * 5

        def value(y):
            e = [a - u if t > 0 else a + u for a, u, t in zip(el, unc, y)]
            return pf.profit([params[0] - unc[2], params[1], params[2]], e, [p + unc[4] for p in pr], y)
        k = math.log(params[2] - unc[3])
        y, st = [min(0.0, k - 0.1), 0.0], 2.0
        for _ in range(400):
            d = [rng.gauss(0, st), rng.gauss(0, st)]
            w = [min(k, y[0] + d[0]), y[1] + d[1]]
            if max(w) < 12 and min(w) > -12 and value(w) > value(y):
                y = w
            else:
                st *= 0.97
        if value(y) > 1e-3:
            break
    inner = [min(y[0], k - 0.02), y[1]]
    off = rng.choice([0.0, 1.0, 4.0])
    xc = centre(rng, y, off)
    s = space(rng, xc, off + rng.choice([1.0, 3.0, 10.0]))
    q = {"type": kind, "params": fmts(params), "el": fmts(el), "price": fmts(pr)}
    if kind == "profitrb":
        q["unc"] = fmts(unc)
    return {"kind": "e2e", "driver": "optimq" if kind == "profitq" else "optim", "space": s, "z": fmts(y), "r": "0.0",
            "zs": [fmts(y), fmts(inner), fmts([t - 0.1 for t in y])], "prob": q, "tol": "1e-16", "max": 2000, "gamma0": "0.0"}


def one_quasi(rng):
    c = [math.sqrt(0.5), 0.5]
    off = rng.choice([0.0, 0.5, 2.0])
    s = space(rng, centre(rng, c, off), off + rng.choice([0.5, 2.0, 8.0]))
    return {"kind": "e2e", "driver": "optim", "space": s, "z": fmts(c), "r": "0.0",
            "zs": [fmts([c[0] * (1 - 1e-12), c[1]]), fmts([0.65, 0.5]), fmts([0.5, 0.5])], "prob": {"type": "quasi"},
            "tol": "1e-16", "max": 2000, "gamma0": fmt(rng.choice([0.0, 0.2, 0.6]))}


def p28(ctx):
    rng = ctx.rng
    hs = []
    for some, limit in [(3, 60)] if not ctx.thorough() else [(2, 60), (3, 60), (4, 60), (3, 12), (6, 60)]:
        out = os.path.join(ctx.work, "runs%d_%d.ndjson" % (some, limit))
        ctx.model_check("MC_Runs", "CONSTANTS Some = %d Limit = %d\nINIT Init\nNEXT Next\nINVARIANTS Safe Emit\nCHECK_DEADLOCK FALSE\n" % (some, limit), {"OUT": out})
        gs = generated(out)
        ctx.detail["planar problems run in the specification (%d rows, limit %d)" % (some, limit)] = len(gs)
        for g in gs:
            for impl in ("ell", "stable"):
                rows = [(a["a"], a["lo"], a["hi"]) for a in g["rows"]]
                p = {"type": "poly", "rows": [dict({"a": a, "hi": hi}, **({"lo": lo[0]} if lo else {})) for a, lo, hi in rows],
                     "balls": [{"c": ["0.0", "0.0"], "r": "3.0"}], "c": g["c"], "rule": "first", "par": g["par"]}
                frows = [([float(t) for t in a], float(lo[0]) if lo else None, float(hi)) for a, lo, hi in rows]
                zs = best(frows, [([0.0, 0.0], 3.0)], [float(t) for t in g["c"]], [0.0, 0.0], rng)
                hs.append({"kind": "e2e", "driver": "optim", "space": dict(g["space"], impl=impl), "z": ["0.0", "0.0"], "r": "0.8", "zs": [fmts(x) for x in zs],
                           "prob": p, "tol": "0.0001", "max": limit, "gamma0": "-1000.0"})
    ctx.log("model checked")
    for d, q, t in (("feas", 1000, 10000), ("optim", 1200, 10000), ("optimq", 300, 3000), ("bsearch", 300, 3000)):
        hs += [one_poly(rng, d) for _ in range(ctx.scale(q, t))]
    hs += [one_lmi(rng) for _ in range(ctx.scale(600, 6000))]
    hs += [one_profit(rng) for _ in range(ctx.scale(240, 2000))]
    hs += [one_quasi(rng) for _ in range(ctx.scale(40, 400))]
    rec = ctx.harness(hs)
    for r in rec:
        k = "%s %s: %s" % (r["driver"], r["prob"]["type"], "found" if r.get("out", {}).get("found") else "none")
        ctx.detail[k] = ctx.detail.get(k, 0) + 1
    ctx.validate("T_Runs", rec, CFG)


CHECKS = {"P28": p28}
NOTES = {"P28": ("TLA+ spec of what complete runs guarantee (ellipsoid method on small planar problems model checked against it: containment of the scaled feasible ball, volume, final accuracy); results of real runs judged with certificates (feasible ball, better points) that the specification verifies in 50-digit arithmetic",
                 "polyhedra with balls to dimension 5, matrix inequalities to order 4, the profit and quasiconvex examples; all four drivers, both search spaces. Discrete runs: the returned point, not its optimality.")}
