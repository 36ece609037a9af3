"""P22-P24: the max-cut, SVM and quasiconvex oracles."""
import json, math, os
from .core import fmt, fmts

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def generated(path):
    res = []
    for line in open(path):
        g = json.loads(line)
        res.append(json.loads(g) if isinstance(g, str) else g)
    res.sort(key=json.dumps)
    return res


# ---- max-cut ---------------------------------------------------------------
def mc_hist(rng, w, xs, exact, gamma0="-inf", resets=True):
    qs = []
    for x in xs:
        q = {"x": fmts(x)}
        if resets and rng.random() < 0.15:
            q["gamma"] = rng.choice(["-inf", "0.0", fmt(rng.randint(-3, 6))])
        qs.append(q)
    return {"kind": "maxcut", "w": [fmts(r) for r in w], "exact": exact, "refuse": False, "gamma0": gamma0, "qs": qs}


def coord(rng, positive):
    v = rng.choice([1.0, 1e-300, 0.5, 3.0, rng.random() + 1e-9, 0.0, -0.0]) if positive else rng.choice([-1.0, -1e-300, -0.5, -rng.random() - 1e-9])
    return v


def p22(ctx):
    rng = ctx.rng
    hs = []
    for n, e in [(2, 3), (3, 2), (4, 1)] if not ctx.thorough() else [(2, 5), (3, 4), (4, 2), (5, 1)][:3]:
        out = os.path.join(ctx.work, "gen%d.ndjson" % n)
        ctx.model_check("MC_MaxCut", "CONSTANTS N = %d E = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nPROPERTY Mono\nCHECK_DEADLOCK FALSE\n" % (n, e), {"OUT": out})
        ms = generated(out)
        ctx.detail["graphs enumerated (%d vertices)" % n] = len(ms)
        for w in ms:
            parts = list(range(2 ** n))
            rng.shuffle(parts)
            xs = [[coord(rng, (t >> i) & 1 == 0) for i in range(n)] for t in parts]
            hs.append(mc_hist(rng, [[float(v) for v in r] for r in w], xs, True, rng.choice(["-inf", "0.0", "-1.0"]), False))
    ctx.log("model checked")
    for _ in range(ctx.sample(300, 4000)):
        n = rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < 0.9 else rng.choice(list(range(4, 24)) + [40, 65])
        ints = rng.random() < 0.6
        w = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                w[i][j] = w[j][i] = (float(rng.randint(-3, 5)) if ints else rng.gauss(0.5, 1)) if rng.random() < 0.8 else 0.0
            if rng.random() < 0.3:
                w[i][i] = float(rng.randint(-2, 2))
        if rng.random() < 0.25:      # not symmetric
            for i in range(n):
                for j in range(i):
                    w[i][j] = float(rng.randint(-3, 5)) if ints else rng.gauss(0.5, 1)
        if rng.random() < 0.25:      # other units
            ints, u = False, 10.0 ** rng.uniform(-30, 30)
            w = [[v * u for v in r] for r in w]
        xs = [[coord(rng, rng.random() < 0.5) for _ in range(n)] for _ in range(rng.choice([3, 10]))]
        if len(xs) > 3:
            xs.append([-v if v else v for v in xs[-1]])
            xs.append(list(xs[0]))
        hs.append(mc_hist(rng, w, xs, ints))
    for r, c in [(1, 2), (2, 1), (2, 3), (3, 2), (1, 4), (4, 3), (0, 0)]:
        if r:
            hs.append({"kind": "maxcut", "w": [fmts([1.0] * c) for _ in range(r)], "exact": True, "refuse": True, "gamma0": "0.0", "qs": []})
    rec = ctx.harness(hs)
    ctx.detail["queries"] = sum(len(x.get("log", [])) for x in rec)
    ctx.validate("T_MaxCut", rec, CFG)


# ---- SVM -------------------------------------------------------------------
def svm_hist(rng, data, labels, qs):
    ints = lambda v: all(float(4 * t).is_integer() and abs(t) < 1e6 for t in v)
    ex = all(ints(r) for r in data)
    return {"kind": "svm", "data": [fmts(r) for r in data], "labels": labels, "gamma0": "-inf",
            "qs": [{"x": fmts(q), "exact": ex and ints(q)} for q in qs]}


def p23(ctx):
    rng = ctx.rng
    hs = []
    for k, d, g in [(2, 2, 2), (3, 1, 3)] if not ctx.thorough() else [(2, 3, 4), (3, 2, 3), (4, 1, 3)]:
        out = os.path.join(ctx.work, "gen%d.ndjson" % k)
        ctx.model_check("MC_Svm", "CONSTANTS K = %d D = %d G = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n" % (k, d, g), {"OUT": out})
        cs = generated(out)
        ctx.detail["data sets enumerated (%d samples)" % k] = len(cs)
        for c in cs:
            qs = [[float(a), float(b)] for a in range(-g, g + 1) for b in range(-g, g + 1)]
            rng.shuffle(qs)
            hs.append(svm_hist(rng, [[float(v) for v in r] for r in c["x"]], c["y"], qs[:20]))
    ctx.log("model checked")
    for _ in range(ctx.sample(400, 5000)):
        n, m = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 9, 25])
        if rng.random() < 0.08:
            n, m = rng.choice([(2, 150), (20, 40), (33, 5), (rng.randint(1, 20), rng.randint(1, 6)), (2, rng.randint(1, 40))])
        ints = rng.random() < 0.5
        w = [rng.randint(-2, 2) if ints else rng.gauss(0, 1) for _ in range(n)]
        b = rng.randint(-2, 2) if ints else rng.gauss(0, 1)
        data, labels = [], []
        for _ in range(m):
            x = [float(rng.randint(-3, 3)) if ints else rng.gauss(0, 2) for _ in range(n)]
            v = sum(p * q for p, q in zip(w, x)) + b
            data.append(x)
            labels.append(1 if (v >= 0) == (rng.random() < 0.95) else -1)
        qs = []
        for _ in range(8):
            s = rng.choice([1.0, 1.0, 2.0, 10.0, 0.25])
            if rng.random() < 0.5:
                q = [v * s for v in w] + [b * s]
            else:
                q = [float(rng.randint(-3, 3)) if ints else rng.gauss(0, 1) * s for _ in range(n + 1)]
            qs.append([float(v) for v in q])
        # scale one query so that its smallest margin is exactly or nearly one
        q = qs[-1]
        mm = min(l * (sum(p * t for p, t in zip(q, x)) + q[-1]) for x, l in zip(data, labels))
        if mm > 0:
            qs.append([v / mm for v in q])
            qs.append([v / mm * (1 - 1e-9) for v in q])
        hs.append(svm_hist(rng, data, labels, qs))
    rec = ctx.harness(hs)
    ctx.detail["queries"] = sum(len(x.get("log", [])) for x in rec)
    ctx.detail["separations"] = sum(1 for x in rec for e in x.get("log", []) if all(float(v) == 0 for v in e["out"].get("g", ["1"])))
    ctx.validate("T_Svm", rec, CFG)


# ---- quasiconvex -----------------------------------------------------------
def p24(ctx):
    rng = ctx.rng
    ctx.model_check("MC_Quasi", "CONSTANTS G = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Turn\nCHECK_DEADLOCK FALSE\n" % ctx.scale(6, 14))
    ctx.detail["model states"] = ctx.last_states
    ctx.log("model checked")
    hs = []
    for _ in range(ctx.sample(300, 5000)):
        qs = []
        for _ in range(rng.choice([4, 12])):
            k = rng.random()
            exact = False
            if k < 0.25:
                s = float(rng.randint(-8, 8)) / 4
                l = s * s + rng.choice([0.0, 0.0, 0.25, -0.25, 1.0])
                exact = False
            elif k < 0.4:      # l = 0: the exponential is exact
                s, l, exact = rng.choice([0.0, 0.5, -0.5, 0.25, 1.0]), 0.0, True
            elif k < 0.6:
                s = rng.uniform(0, 1.5)
                l = s * s + rng.choice([1e-10, -1e-10, 0.1, 1e-6, -1e-6])
            elif k < 0.7:
                l = rng.choice([-1, 1]) * 10 ** rng.uniform(0.5, 2.4)
                s = rng.choice([1, 1, -1]) * math.sqrt(abs(l)) * rng.choice([0.5, 0.9, 1.1, 1e-3])
            else:
                s, l = rng.gauss(0.5, 1), rng.gauss(0.5, 1.5)
            g = rng.random()
            q = {"x": fmts([s, l])}
            r = s / math.exp(l)
            if g < 0.27:
                exact = False
            elif g < 0.31:
                q["gamma"], exact = "-inf", False
            elif exact:
                q["gamma"] = fmt(rng.choice([0.0, 0.5, s, s, -0.5, 1.0]))
            else:
                q["gamma"] = fmt(rng.choice([0.0, r, r * (1 + 1e-10), r * (1 - 1e-10), r * 1.5, r * 0.7, r + 0.1, r - 0.1, 0.43, abs(rng.gauss(0, 1)), 100.0, -abs(rng.gauss(0, 1))]))
            q["exact"] = exact
            qs.append(q)
            if rng.random() < 0.3:
                qs.append({"x": q["x"], "exact": False})
        hs.append({"kind": "quasi", "gamma0": rng.choice(["0.0", "0.0", "-inf"]), "qs": qs})
    rec = ctx.harness(hs)
    ctx.detail["queries"] = sum(len(x.get("log", [])) for x in rec)
    ctx.detail["improvements"] = sum(1 for x in rec for e in x.get("log", []) if e["out"].get("imp"))
    ctx.validate("T_Quasi", rec, CFG)


CHECKS = {"P22": p22, "P23": p23, "P24": p24}
NOTES = {
    "P22": ("TLA+ spec of the max-cut oracle (all small weighted graphs and partitions model checked and replayed); recorded query histories validated exactly",
            "Every graph on 2-4 vertices with small integer weights, every partition; random weights, symmetric or not and in units down to 1e-30, to 12 vertices (a few to 65)."),
    "P23": ("TLA+ spec of the SVM oracle (direction validity model checked on all small data sets, replayed); recorded queries validated in 50-digit arithmetic",
            "Every one-dimensional data set of 2-3 samples on a grid and random ones to 25 samples in 6 dimensions; ties are judged for exact data."),
    "P24": ("TLA+ spec of the quasiconvex oracle (cut validity and rotation model checked on a grid); recorded query histories validated in 50-digit arithmetic",
            "Random points and bounds including exact ties. Cut validity is claimed for non-negative bounds, where the constraint is convex."),
}
