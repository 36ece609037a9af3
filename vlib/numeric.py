"""P26, P27: conjugate gradients and power iterations."""
import math, os
from decimal import Decimal
from .core import fmt, fmts
from .small import generated

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def orthogonal(rng, n):
    """A product of Householder reflections, as rows."""
    q = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(min(n, 3)):
        v = [rng.gauss(0, 1) for _ in range(n)]
        s = sum(t * t for t in v)
        for r in q:
            d = 2 * sum(a * b for a, b in zip(r, v)) / s
            for j in range(n):
                r[j] -= d * v[j]
    return q


def with_spectrum(rng, ev):
    n = len(ev)
    q = orthogonal(rng, n)
    a = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            a[i][j] = a[j][i] = sum(q[i][k] * ev[k] * q[j][k] for k in range(n))
    return a


def norm(v):
    return math.sqrt(sum(t * t for t in v))


def matvec(a, x):
    return [sum(p * q for p, q in zip(r, x)) for r in a]


def cg(a, b, tol, mx, x0=None, replay=True, solvable=False):
    h = {"kind": "cg", "a": [fmts(r) for r in a], "b": fmts(b), "tol": fmt(tol), "max": mx, "replay": replay, "solvable": solvable}
    if x0 is not None:
        h["x0"] = fmts(x0)
    return h


def exactly(h, **more):
    """All digits of the numbers (the shortest decimal form is not the binary value)."""
    def full(v):
        return [full(t) for t in v] if isinstance(v, list) else format(Decimal(float(v)), "f")
    return dict({k: full(v) if k in ("a", "b", "x", "x0", "tol") else v for k, v in h.items()}, **more)


def p26(ctx):
    rng = ctx.rng
    hs = []
    for n, neg, hi, b in [(1, 2, 3, 2), (2, 1, 2, 1)] if not ctx.thorough() else [(1, 4, 6, 4), (2, 2, 3, 2), (3, 1, 2, 1)]:
        out = os.path.join(ctx.work, "cg%d.ndjson" % n)
        ctx.model_check("MC_CG", "CONSTANTS N = %d Neg = %d Hi = %d B = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n" % (n, neg, hi, b), {"OUT": out})
        gs = generated(out)
        ctx.detail["systems enumerated (order %d)" % n] = len(gs)
        if len(gs) > 4000:
            gs = rng.sample(gs, 4000 if ctx.thorough() else 1500)
        for g in gs:
            f = lambda v: [float(t) for t in v]
            hs.append(cg([f(r) for r in g["a"]], f(g["b"]), rng.choice([1e-5, 1e-8, 0.5, 1.0]), rng.choice([0, 1, n, n + 1, 10]), f(g["x0"]) if any(g["x0"]) or rng.random() < 0.3 else None))
    ctx.log("model checked")
    for _ in range(ctx.sample(700, 6000)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if rng.random() < 0.97 else rng.randint(7, 20)
        sc = 10.0 ** rng.choice([0, 0, 0, rng.uniform(-8, 8)])
        cond = rng.choice([1.0, 3.0, 10.0, 100.0])
        ev = [sc * math.exp(rng.random() * math.log(cond)) for _ in range(n)]
        if rng.random() < 0.3:      # few distinct eigenvalues: fewer steps than the order
            ev = [rng.choice(ev[:2]) for _ in ev]
        a = with_spectrum(rng, ev)
        x = [rng.gauss(0, 1) * 10.0 ** rng.choice([0, 0, 3, -3]) for _ in range(n)]
        b = matvec(a, x)
        x0 = None
        k = rng.random()
        if k < 0.2:
            x0 = x
        elif k < 0.5:
            x0 = [rng.gauss(0, 1) for _ in range(n)]
        elif k < 0.6:
            x0 = [t + 1e-6 * rng.gauss(0, 1) for t in x]
        elif k < 0.65:
            b = [0.0] * n
        scale = norm(b) + (norm(matvec(a, x0)) if x0 else 0) or sc
        tol = scale * 10.0 ** rng.uniform(-7, 1)
        mx = rng.choice([0, 1, 2, n - 1, n, n, n + 2, 2 * n + 2, 50, 1000])
        hs.append(cg(a, b, tol, mx, x0, True, mx >= 2 * n + 2))
    for _ in range(ctx.sample(60, 600)):
        n = rng.choice([12, 20, 30, 30, 70]) if rng.random() < 0.5 else rng.randint(7, 40)
        ev = [math.exp(rng.random() * math.log(100.0)) for _ in range(n)]
        a = with_spectrum(rng, ev)
        b = [rng.gauss(0, 1) for _ in range(n)]
        hs.append(cg(a, b, 1e-8 * norm(b), 10 * n + 100, [rng.gauss(0, 1) for _ in range(n)] if rng.random() < 0.5 else None, False, True))
    for _ in range(ctx.sample(100, 600)):      # ill-conditioned or indefinite: only what is returned is judged
        n = rng.choice([2, 3, 5, 8])
        ev = [10.0 ** rng.uniform(-8, 2) * rng.choice([1, 1, 1, -1]) for _ in range(n)]
        a = with_spectrum(rng, ev)
        b = [rng.gauss(0, 1) for _ in range(n)]
        hs.append(cg(a, b, 10.0 ** rng.uniform(-6, 0), rng.choice([1, 3, 20, 200]), None, False))
    for n in [1, 2, 3, 6]:
        z = [[0.0] * n for _ in range(n)]
        hs.append(cg(z, [1.0] * n, 1e-5, 10))
        hs.append(cg(z, [0.0] * n, 1e-5, 10))
        hs.append(cg(z, [0.0] * n, 1e-5, 0, [2.0] * n))
        skew = [[0.0] * n for _ in range(n)]
        for i in range(n - 1):
            skew[i][i + 1] = skew[i + 1][i] = 1.0
        hs.append(cg(skew, [1.0] + [0.0] * (n - 1), 1e-5, 10))
    # the residual is exactly the tolerance: not below it, so the search goes on
    for _ in range(ctx.sample(60, 300)):
        n, k = rng.choice([2, 3, 5]), 2.0 ** rng.randint(-20, 20)
        c = 2.0 ** rng.randint(-6, 6)
        a = [[c if i == j else 0.0 for j in range(n)] for i in range(n)]
        x0 = [float(rng.randint(-4, 4)) * k for _ in range(n)]
        r = [0.0] * n
        p, q = rng.sample(range(n), 2)
        r[p], r[q] = 3.0 * k * rng.choice([1, -1]), 4.0 * k
        b = [c * x0[i] + r[i] for i in range(n)]
        for f in (1.0, 1.0, 1 + 2.0 ** -40, 1 - 2.0 ** -40):
            hs.append(exactly(cg(a, b, 5.0 * k * f, rng.choice([0, 1, 3]), x0), exact=0))
        m = 2.0 ** rng.randint(-5, 5)
        a = [[m * (0 if i != j else 1 if i < 2 else 3) for j in range(4)] for i in range(4)]
        hs.append(exactly(cg(a, [k] * 4, k * rng.choice([1, 1, 1 + 2.0 ** -40, 1 - 2.0 ** -40]), rng.choice([0, 1, 1, 2, 6])), exact=1))
    rec = ctx.harness(hs)
    ctx.detail["solved"] = sum(1 for r in rec if r.get("out", {}).get("ok"))
    ctx.detail["errors"] = sum(1 for r in rec if r.get("out", {}).get("ok") is False)
    ctx.validate("T_CG", rec, CFG)


def power(a, x, variant, tol, mx):
    return {"kind": "power", "a": [fmts(r) for r in a], "x": fmts(x), "variant": variant, "tol": fmt(tol), "max": mx}


def p27(ctx):
    rng = ctx.rng
    hs = []
    for n, neg, hi, st in [(1, 2, 2, 3), (2, 3, 3, 6)] if not ctx.thorough() else [(1, 4, 4, 3), (2, 4, 5, 10), (3, 1, 2, 6)]:
        out = os.path.join(ctx.work, "pw%d.ndjson" % n)
        ctx.model_check("MC_Power", "CONSTANTS N = %d Neg = %d Hi = %d Steps = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n" % (n, neg, hi, st), {"OUT": out})
        gs = generated(out)
        ctx.detail["matrices and starts enumerated (order %d)" % n] = len(gs)
        if len(gs) > 1200:
            gs = rng.sample(gs, 1200 if ctx.thorough() else 300)
        for g in gs:
            for v in (1, 2, 3, 4):
                hs.append(power([[float(t) for t in r] for r in g["a"]], [float(t) for t in g["x"]], v, rng.choice([1e-2, 1e-4, 1e-7]), rng.choice([1, 2, 5, 20])))
    ctx.log("model checked")
    for _ in range(ctx.sample(600, 5000)):
        n = rng.choice([1, 2, 3, 4, 5, 7]) if rng.random() < 0.96 else rng.choice(list(range(6, 24)) + [33])
        sc = 10.0 ** rng.choice([0, 0, 0, rng.uniform(-60, 60)])
        gap = rng.choice([0.2, 0.5, 0.8, 0.95])
        ev = [rng.choice([1, 1, -1])] + [gap * rng.uniform(-1, 1) for _ in range(n - 1)]
        if rng.random() < 0.1 and n > 1:
            ev[1] = -ev[0]            # never settles
        if rng.random() < 0.1 and n > 1:
            ev[1] = ev[0]             # double eigenvalue
        a = [[sc * t for t in r] for r in with_spectrum(rng, ev)]
        x = [rng.gauss(0, 1) * 10.0 ** rng.choice([0, 0, 2, -2]) for _ in range(n)]
        mx = rng.choice([0, 1, 2, 10, 60, 60, 200, 300])
        for v in (1, 2, 3, 4):
            tol = 10.0 ** rng.uniform(-9, 0) * (1 if v in (1, 4) else sc)
            hs.append(power(a, x, v, tol, mx))
    for _ in range(ctx.sample(8, 60)):       # long runs: slow convergence, growth or decay past the floating-point range
        n = rng.choice([2, 3])
        for v in (1, 2, 3, 4):
            sc = rng.choice([1e-3, 1.0, 1e3, 20.0, 0.05])
            ev = [1.0] + [0.99 * rng.uniform(0.97, 1)] * (n - 1)
            hs.append(power([[sc * t for t in r] for r in with_spectrum(rng, ev)], [rng.gauss(0, 1) for _ in range(n)], v, 1e-10 * (1 if v in (1, 4) else sc), 1200))
    for _ in range(ctx.sample(10, 100)):      # all lengths stay next to one
        n = rng.choice([2, 3, 4])
        a = with_spectrum(rng, [1.0, -1.0] + [rng.choice([1.0, -1.0]) for _ in range(n - 2)])
        x = [rng.gauss(0, 1) for _ in range(n)]
        k = (1 + rng.choice([1, -1]) * 10.0 ** -rng.uniform(4, 9)) / norm(x)
        for v in (1, 2, 3, 4):
            hs.append(power(a, [t * k for t in x], v, 10.0 ** -rng.uniform(3, 12), rng.choice([0, 1, 2, 5])))
    for _ in range(ctx.sample(10, 100)):      # the last length is next to one, and nothing has converged
        n, mx = rng.choice([2, 3, 4]), rng.choice([0, 1, 2, 3])
        a = with_spectrum(rng, [rng.choice([1, -1]) * rng.uniform(0.5, 2) for _ in range(n)])
        x = [rng.gauss(0, 1) for _ in range(n)]
        y = x
        for _ in range(mx):
            y = [sum(p * q for p, q in zip(r, y)) for r in a]
        k = (1 + rng.choice([1, -1]) * 10.0 ** -rng.uniform(4, 9)) / norm(y)
        for v in (1, 2, 3, 4):
            hs.append(power(a, [t * k for t in x], v, 1e-9, mx))
    # the change is exactly the tolerance: stops
    for v in (1, 2, 3, 4):
        for _ in range(ctx.sample(12, 60)):
            n, c = rng.choice([2, 3, 4]), 2.0 ** rng.randint(-8, 8) * rng.choice([1, -1])
            s, t = rng.sample(range(n), 2)
            x = [0.0] * n
            x[s] = 2.0 ** rng.randint(-5, 5) * rng.choice([1, -1])
            a = [[0.0] * n for _ in range(n)]
            e = rng.choice([0.0, 2.0 ** -40, -2.0 ** -40, -1.0])
            if rng.random() < 0.5:        # an eigenvector: nothing changes
                for i in range(n):
                    a[i][i] = c * rng.choice([1, 2, -1]) if i != s else c
                hs.append(exactly(power(a, x, v, max(0.0, e), rng.choice([1, 3, 8])), exact=True))
            else:                         # swaps two axes; the quotient goes from 0 to 4c (and back)
                a[s][t] = a[t][s] = c
                a[t][t] = 0.0 if v in (1, 4) else 4 * c
                full = 2.0 if v in (1, 4) else abs(4 * c)
                hs.append(exactly(power(a, x, v, full * (1 + e), 1), exact=True))
    rec = ctx.harness(hs)
    ctx.detail["converged"] = sum(1 for r in rec if r.get("out", {}).get("it", 10 ** 9) < r["max"])
    ctx.detail["at the limit"] = sum(1 for r in rec if r.get("out", {}).get("it") == r["max"])
    ctx.validate("T_Power", rec, CFG)


CHECKS = {"P26": p26, "P27": p27}
NOTES = {"P26": ("TLA+ spec of the conjugate-gradient recurrence (model checked over all small systems: conjugacy, orthogonality, energy decrease, solution in n steps); recorded solves compared with the specified run in 50-digit arithmetic, with a perturbed twin run bounding the effect of rounding",
                 "order <= 8 with condition <= 100 against the full recurrence, order <= 30 by residual; ill-conditioned and indefinite systems by the residual of what is returned"),
         "P27": ("TLA+ spec of the four power iterations (model checked over all small matrices: normalisation, monotone Rayleigh quotient, residual bound); recorded runs compared iteration by iteration in 50-digit arithmetic, with a perturbed twin run bounding the effect of rounding",
                 "order <= 7, scales 1e-60..1e60, up to 1200 iterations; where the exact run is too sensitive to decide the stopping iteration only norm, value and residual are judged")}
