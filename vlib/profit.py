"""P19-P21: the profit oracles."""
import math
from .core import fmt, fmts, known_findings

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def instance(rng):
    if rng.random() < 0.25:
        return [20.0, 40.0, 30.5], [0.1, 0.4], [10.0, 35.0]
    if rng.random() < 0.3:
        return [float(rng.randint(2, 30)), float(rng.randint(2, 50)), float(rng.randint(1, 40))], \
            [rng.choice([0.25, 0.5, 0.125, 0.375]), rng.choice([0.25, 0.5, 0.125])], [float(rng.randint(1, 40)), float(rng.randint(1, 40))]
    return [rng.uniform(1.5, 50), rng.uniform(1, 100), rng.uniform(1.2, 100) if rng.random() < 0.8 else 10.0 ** rng.uniform(2, 9)], \
        [rng.uniform(0.02, 0.9), rng.uniform(0.02, 0.9)], [rng.uniform(0.5, 50), rng.uniform(0.5, 50)]


def profit(params, el, pr, y):
    return params[0] * params[1] * math.exp(el[0] * y[0] + el[1] * y[1]) - pr[0] * math.exp(y[0]) - pr[1] * math.exp(y[1])


def query(rng, params, el, pr, q):
    lk = math.log(params[2])
    k = rng.random()
    exact = False
    if k < 0.3:
        y = [lk - abs(rng.gauss(0, 1)), rng.gauss(1, 1.5)]
    elif k < 0.5:
        y = [lk + rng.gauss(0, 0.5), rng.gauss(0, 2)]
    elif k < 0.54:
        y = [lk + rng.choice([1, -1]) * 10.0 ** rng.uniform(-12.9, -8), rng.gauss(0, 2)]
    elif k < 0.6:
        lo = rng.choice([-15, -6])
        y = [rng.choice([-1, 1]) * 10.0 ** rng.uniform(lo, 1), rng.choice([-1, 1]) * 10.0 ** rng.uniform(lo, 0.9)]
    elif k < 0.7:
        y = [rng.choice([0.0, 0.0, 1.0, -1.0]), rng.choice([0.0, 0.0, 1.0, -2.0])]
    elif k < 0.8:
        y = [math.log(rng.randint(1, 40)), math.log(rng.randint(1, 40))]
    elif k < 0.85:
        y = [rng.uniform(-12, 12), rng.uniform(-12, 12)] if rng.random() < 0.5 else [rng.uniform(5, 20), rng.uniform(5, 20)]
    else:
        y = [rng.gauss(1, 2), rng.gauss(1, 2)]
    if q and rng.random() < 0.15:      # next to the tie of the rounding
        y[rng.randrange(2)] = math.log(rng.randint(0, 20) + 0.5 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-11, -3))
    g = rng.random()
    r = {"x": fmts(y)}
    if g < 0.04:
        r["gamma"] = "-inf"
    elif g < 0.25:
        pass                      # whatever the previous answers left
    elif g < 0.4:
        r["gamma"] = fmt(0.0)
    elif g < 0.5:
        r["gamma"] = fmt(-10.0 ** rng.uniform(-2, 5))
    elif g < 0.6:
        r["gamma"] = fmt(10.0 ** rng.uniform(0, 5))
    elif g < 0.7:                 # next to the tie, in units of the revenue
        cobb = params[0] * params[1] * math.exp(el[0] * y[0] + el[1] * y[1])
        r["gamma"] = fmt(cobb * (1 + rng.choice([1, -1]) * 10.0 ** rng.uniform(-12.3, -10)) - pr[0] * math.exp(y[0]) - pr[1] * math.exp(y[1]))
    else:
        r["gamma"] = fmt(profit(params, el, pr, y) * (1 + rng.choice([0.0, 1e-3, -1e-3, 1e-8, -1e-8, 2e-10, -2e-10, 1e-11, -1e-11, 0.3, -0.3, 2.0])))
    r["exact"] = False
    if q:
        r["retry"] = rng.random() < 0.3
    return r


def exact_query(rng, params, pr):
    """y = 0 with integral data: every comparison is exact in floating point."""
    return {"x": fmts([0.0, 0.0]), "gamma": fmt(params[0] * params[1] - pr[0] - pr[1] + rng.choice([0.0, 0.0, 1.0, -1.0])), "exact": True}


def history(rng, kind, steps):
    params, el, pr = instance(rng)
    h = {"kind": kind, "params": fmts(params), "el": fmts(el), "price": fmts(pr), "gamma0": rng.choice(["0.0", "0.0", "-inf"])}
    if kind == "profitrb":
        u = [0.0] * 5 if rng.random() < 0.15 else [rng.uniform(0, 0.01 if rng.random() < 0.5 else 0.3), rng.uniform(0, 0.01 if rng.random() < 0.5 else 0.3),
                                                  rng.uniform(0, 0.6) * params[0], rng.uniform(0, 0.6) * params[2], rng.uniform(0, 2)]
        h["unc"] = fmts(u)
        params, pr = [params[0] - u[2], params[1], params[2] - u[3]], [pr[0] + u[4], pr[1] + u[4]]
    integral = all(float(v).is_integer() for v in params + pr) and params[2] >= 1
    qs = []
    for _ in range(steps):
        if kind == "profit" and integral and rng.random() < 0.4:
            qs.append(exact_query(rng, params, pr))
        else:
            qs.append(query(rng, params, el, pr, kind == "profitq"))
    h["qs"] = qs
    return h


def finding(ctx):
    """The listed finding of P21, demonstrated: the depth moves the wrong way."""
    y = [math.log(10.4), math.log(7.3)]
    h = {"kind": "profitq", "params": fmts([20.0, 40.0, 30.5]), "el": fmts([0.1, 0.4]), "price": fmts([10.0, 35.0]), "gamma0": fmt(0.0),
         "qs": [{"x": fmts(y), "retry": False, "exact": False}]}
    r = ctx.harness([h])[0]
    out = r.get("log", [{}])[0].get("out", {})
    if "g" not in out:
        return False
    g, b0, xq = [float(v) for v in out["g"]], float(out["b0"]), [float(v) for v in out["xq"]]
    right = sum(a * (p - q) for a, p, q in zip(g, y, xq))
    return abs(b0 + right) < 1e-9 and abs(b0 - right) > 1e-6


def run(kind, prop):
    def check(ctx):
        ctx.model_check("MC_Profit", "CONSTANTS G = %d Shapes = {%s}\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
                        % ((4, "1, 2, 4") if not ctx.thorough() else (8, "1, 2, 3, 4")))
        ctx.detail["model states"] = ctx.last_states
        ctx.log("model checked")
        rng = ctx.rng
        hs = [history(rng, kind, rng.choice([4, 12, 12])) for _ in range(ctx.sample(260, 4000))]
        rec = ctx.harness(hs)
        q = [e["out"] for x in rec for e in x.get("log", [])]
        ctx.detail["queries"] = len(q)
        ctx.detail["improvements"] = sum(1 for o in q if o.get("imp"))
        env = {}
        if prop == "P21" and "shift-sign" in known_findings("P21"):
            if finding(ctx):
                env["KNOWN"] = "shift-sign"
                print("KNOWN-FINDING: property=P21 %s" % known_findings("P21")["shift-sign"])
        ctx.validate("T_Profit", rec, CFG, env)
    return check


_T = "TLA+ spec of the profit oracles (cut validity and robustness model checked on a grid); recorded query histories validated in 50-digit arithmetic"
CHECKS = {"P19": run("profit", "P19"), "P20": run("profitrb", "P20"), "P21": run("profitq", "P21")}
NOTES = {
    "P19": (_T, "Random parameter sets, bounds and histories including exact ties; constraint values within 1e-12 of zero are ties otherwise."),
    "P20": (_T, "As P19 with random uncertainty sets and every sign pattern of the query."),
    "P21": (_T, "As P19 with rounding and retries. One listed finding: the depth is shifted with the wrong sign (the iteration count that follows from it is pinned by a test)."),
}
