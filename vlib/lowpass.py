"""P17, P18: the lowpass filter oracle and its ready-made instance."""
import math
from .core import fmt, fmts

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def rows(n):
    m = 15 * n
    return [[1.0] + [2.0 * math.cos(math.pi * i / (m - 1) * j) for j in range(1, n)] for i in range(m)]


class Inst:
    def __init__(self, n, wp, ws, lp, up, sp):
        self.n, self.wp, self.ws, self.lp, self.up, self.sp = n, wp, ws, lp, up, sp
        self.rows = rows(n)
        m = 15 * n
        self.np, self.ns = int(math.floor(wp * (m - 1))) + 1, int(math.floor(ws * (m - 1))) + 1

    def reqs(self, sp):
        """(a, hi) with a.x <= hi."""
        r = []
        for i, a in enumerate(self.rows):
            na = [-t for t in a]
            if i < self.np:
                r += [(a, self.up), (na, -self.lp)]
            elif i >= self.ns:
                r += [(a, sp), (na, 0.0)]
            else:
                r += [(na, 0.0)]
        r.append(([-1.0] + [0.0] * (self.n - 1), 0.0))
        return r

    def relax(self, rng, x, sp, sweeps=200):
        """Over-projection towards a strictly feasible design, or None."""
        rq = self.reqs(sp)
        for _ in range(sweeps):
            worst, w = None, 1e-3 * min(1.0, sp)
            for a, hi in rq[:-1]:
                v = sum(p * q for p, q in zip(a, x)) - hi
                if v > -w / 2:
                    s = (v + w) / sum(p * p for p in a)
                    x = [q - s * p for p, q in zip(a, x)]
                    worst = a
            if worst is None:
                return x
        return None

    def single(self, rng, x, sp, k):
        """A design near the feasible x that violates exactly one requirement (the one most exposed in direction of requirement k)."""
        rq = self.reqs(sp)
        a, _ = rq[k]
        d = [t + rng.gauss(0, 0.02) for t in a]
        ts = []
        for b, hi in rq:
            den = sum(p * q for p, q in zip(b, d))
            if den > 1e-12:
                ts.append((hi - sum(p * q for p, q in zip(b, x))) / den)
        ts.sort()
        if not ts:
            return None
        t = ts[0] + (0.5 * (ts[1] - ts[0]) if len(ts) > 1 else 0.1)
        if t <= 0 or (len(ts) > 1 and ts[1] - ts[0] < 1e-9 * abs(t)):
            return None
        return [p + t * q for p, q in zip(x, d)]


def instance(rng, n):
    wp = rng.choice([0.05, 0.13, 0.21, 0.37]) + rng.uniform(0, 0.01)
    ws = wp + rng.choice([0.02, 0.11, 0.23, 0.4]) + rng.uniform(0, 0.01)
    if rng.random() < 0.1:
        ws = wp        # no transition band
    k = rng.random()
    if k < 0.5:      # lenient
        lp, up, sp = 0.5, 2.0, 3.0
    elif k < 0.6:    # negative lower limit
        lp, up, sp = -0.5, 1.5, 1.0
    else:
        lp, up, sp = 0.7, 1.4, rng.choice([0.9, 0.6, 0.3])
    return Inst(n, wp, ws, lp, up, sp)


def history(rng, inst, queries, case=False):
    h = {"kind": "lowpass", "n": inst.n}
    if case:
        h["case"] = True
    else:
        h.update(wpass=fmt(inst.wp), wstop=fmt(inst.ws), lp=fmt(inst.lp), up=fmt(inst.up), sp=fmt(inst.sp))
    base = None
    for _ in range(3):
        c = rng.uniform(max(inst.lp, 0.0), min(inst.up, inst.sp)) if inst.sp > inst.lp else inst.lp
        base = inst.relax(rng, [max(c, 0.01)] + [rng.gauss(0, 0.05) / (j + 1) for j in range(1, inst.n)], inst.sp)
        if base:
            break
    nreq = len(inst.reqs(inst.sp))
    order = list(range(nreq))
    rng.shuffle(order)
    qs, gamma = [], inst.sp
    while len(qs) < queries:
        r = rng.random()
        mode = "feas" if rng.random() < 0.6 else "optim"
        x = None
        if base and r < 0.55:
            x = inst.single(rng, base, inst.sp, order[len(qs) % nreq] if rng.random() < 0.95 else nreq - 1)
        elif base and r < 0.62 and inst.sp > max(inst.lp, 0):    # nearly flat response: the maxima almost tie
            lo = max(inst.lp, 0.0)
            e = 10.0 ** rng.uniform(-9, -3)
            x = [rng.uniform(lo + 0.01, min(inst.up, inst.sp) - 0.01)] + [rng.gauss(0, e) / inst.n for _ in range(1, inst.n)]
            mode = "optim"
        elif base and r < 0.75:
            x = [v + rng.gauss(0, 1e-3) for v in base] if rng.random() < 0.5 else list(base)
        if x is None:
            s = rng.choice([0.05, 0.5, 2.0])
            x = [rng.gauss(0.5, s)] + [rng.gauss(0, s) / (j + 1) for j in range(1, inst.n)]
        q = {"x": fmts(x), "mode": mode}
        if mode == "optim" and rng.random() < 0.7:
            q["gamma"] = fmt(inst.sp * rng.choice([1.0, 1.0, 1.5, 0.8]))
        qs.append(q)
    h["qs"] = qs
    return h


CASE = (0.12, 0.20, 1 / 1.025 ** 2, 1.025 ** 2, 0.125 ** 2)


def model(ctx):
    for m, p, s in [(5, 2, 3), (6, 3, 3)] if not ctx.thorough() else [(6, 2, 4), (7, 3, 5), (7, 1, 2)]:
        ctx.model_check("MC_Lowpass", "CONSTANTS NPass = %d NStop = %d M = %d Steps = %d\nINIT Init\nNEXT Next\nVIEW View\nINVARIANTS Exact Fair\nCHECK_DEADLOCK FALSE\n"
                        % (p, s, m, 8))
        ctx.detail["scan model states (M=%d)" % m] = ctx.last_states
    ctx.log("model checked")


def rescaled(rng, h):
    """The same history in other units of the response (the specification is homogeneous)."""
    k = 10.0 ** rng.choice([-9, -6, -3, 3, 6])
    for f in ("lp", "up", "sp"):
        h[f] = fmt(float(h[f]) * k)
    for q in h["qs"]:
        q["x"] = fmts([float(v) * k for v in q["x"]])
        if "gamma" in q:
            q["gamma"] = fmt(float(q["gamma"]) * k)
    return h


def ties(rng):
    """Constant responses, which are exact, at, just below and just above every limit: no rounding to excuse."""
    n = rng.choice([1, 2, 3, 5])
    lp, up, sp = rng.choice([(0.5, 1.5, 1.0), (0.5, 1.5, 1.5), (0.5, 1.5, 0.5), (-0.5, 1.5, 1.0), (0.0, 1.5, 1.0), (1.0, 1.0, 1.0), (-2.0, -1.0, 1.0)])
    inst = instance(rng, n)
    h = {"kind": "lowpass", "n": n, "exact": True, "wpass": fmt(inst.wp), "wstop": fmt(inst.ws), "lp": fmt(lp), "up": fmt(up), "sp": fmt(sp), "qs": []}
    e = 2.0 ** -rng.choice([10, 30, 45])
    for _ in range(20):
        c = rng.choice([lp, up, sp, 0.0]) + rng.choice([0.0, 0.0, e, -e])
        q = {"x": fmts([c] + [0.0] * (n - 1)), "mode": rng.choice(["feas", "optim"])}
        if q["mode"] == "optim" and rng.random() < 0.6:
            q["gamma"] = fmt(rng.choice([c, sp, 1.0, up]))
        h["qs"].append(q)
    return h


def p17(ctx):
    model(ctx)
    rng = ctx.rng
    hs = []
    for i in range(ctx.sample(60, 400)):
        hs.append(ties(rng))
    for i in range(ctx.sample(60, 400)):
        hs.append(rescaled(rng, history(rng, instance(rng, rng.choice([2, 3, 4])), 20)))
    for i in range(ctx.sample(240, 2000)):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        hs.append(history(rng, instance(rng, n), rng.choice([10, 40])))
    for i in range(ctx.sample(6, 40)):
        hs.append(history(rng, instance(rng, rng.choice([8, 10])), 30))
    for i in range(ctx.sample(3, 12)):
        hs.append(history(rng, Inst(16, *CASE), 12, True))
    for n in ctx.scale([20, 36], [20, 24, 36, 36, 48]):
        hs.append(history(rng, instance(rng, n), 15))
    rec = ctx.harness(hs)
    q = [e for x in rec for e in x.get("log", [])]
    ctx.detail["queries"] = len(q)
    ctx.detail["accepted"] = sum(1 for e in q if e["out"].get("feas") or e["out"].get("imp"))
    ctx.validate("T_Lowpass", rec, CFG)


def p18(ctx):
    model(ctx)
    rng = ctx.rng
    hs = []
    for n in list(range(1, ctx.scale(17, 49))) + [24, 32, 49, 64] + ctx.scale([], [100]):
        hs.append({"kind": "lowpass", "n": n, "case": True, "qs": []})
    for n in ctx.scale([128, 257, 420, 1000], [128, 200, 257, 300, 420, 513, 700, 1000]):
        hs.append({"kind": "lowpass", "n": n, "case": True, "qs": [],
                   "rows": sorted({0, 1, 15 * n // 2, 15 * n - 2, 15 * n - 1} | {rng.randrange(15 * n) for _ in range(6)})})
    for i in range(ctx.sample(10, 60)):
        inst = instance(rng, rng.choice([1, 2, 3, 5, 7]))
        hs.append(history(rng, inst, 2))
    runs = []
    for n in ctx.scale([4, 8, 12, 16, 20, 24, 32], [3, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 28, 32, 36]):
        for impl in ("ell", "stable"):
            runs.append({"kind": "e2e", "driver": "optim", "n": n, "case": True, "max": 50000, "tol": "1e-14", "expect": n >= 20,
                         "space": {"impl": impl, "ctor": "scalar", "kappa": "40", "xc": fmts([0.0] * n)}, "prob": {"type": "lowpass"}})
    rec = ctx.harness(hs + runs, shards=8)
    ctx.detail["runs with a design"] = sum(1 for x in rec if x.get("out", {}).get("found"))
    ctx.detail["runs"] = len(runs)
    ctx.validate("T_Lowpass", rec, CFG)


_T = "TLA+ spec of the filter oracle (cyclic scan model checked over all violation histories); recorded query histories and optimization runs validated in 50-digit arithmetic"
CHECKS = {"P17": p17, "P18": p18}
NOTES = {
    "P17": (_T, "Random instances with 1-10, 20 and 36 coefficients and the ready-made one with 16, also in other units of the response (1e-9 to 1e6); most queries violate exactly one requirement, each in turn. Responses within 1e-12 of a limit are ties, except for constant responses, which are exact and judged exactly. An instance without stopband is outside the contract."),
    "P18": (_T, "Orders 1-16, 24, 32, 49 and 64 (thorough: to 48, 49, 64, 100), of orders to 1000 sampled rows; optimization runs with both search spaces to order 32 (36)."),
}
