"""P16: the linear-matrix-inequality oracles."""
import json, os
from fractions import Fraction
from .core import fmt, fmts
from .ldlt import exactly, wire

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def mat_at(F, B, x):
    m = len(F[0])
    return [[(Fraction(B[i][j]) if B else 0) - (1 if B else -1) * sum(Fraction(F[k][i][j]) * Fraction(x[k]) for k in range(len(x)))
             for j in range(m)] for i in range(m)]


def integral(F, B, xs):
    return all(float(v).is_integer() and abs(v) < 1e6 for f in F + ([B] if B else []) for r in f for v in r) and \
        all((8 * v).is_integer() and abs(v) < 1e6 for v in xs)


def query(F, B, x):
    ex = integral(F, B, x) and exactly([[float(v) for v in r] for r in mat_at(F, B, x)])
    return {"x": fmts(x), "exact": ex}


def hist(F, B, xs, zs, units=None):
    """units: powers of two by which the coordinates are rescaled (written in decimal, so no longer exact)."""
    qs = [query(F, B, x) for x in xs]
    if units:
        F = [[[v / t for v in r] for r in f] for f, t in zip(F, units)]
        qs = [dict(q, exact=False, x=fmts([v * t for v, t in zip(x, units)])) for q, x in zip(qs, xs)]
        zs = [[v * t for v, t in zip(z, units)] for z in zs]
    h = {"kind": "lmi", "f": [wire(f) for f in F], "qs": qs, "zs": [fmts(z) for z in zs]}
    if B:
        h["b"] = wire(B)
    return h


def sym(rng, m, ints, sc=1.0):
    a = [[0.0] * m for _ in range(m)]
    for i in range(m):
        for j in range(i + 1):
            a[i][j] = a[j][i] = float(rng.randint(-3, 3)) if ints else rng.gauss(0, 1) * sc
    return a


def psd(rng, m, ints):
    b = [[float(rng.randint(-1, 1)) if ints else rng.gauss(0, 1) for _ in range(m + 1)] for _ in range(m)]
    return [[sum(p * q for p, q in zip(b[i], b[j])) + (1.0 if i == j else 0.0) for j in range(m)] for i in range(m)]


def random_hist(rng, m=None, n=None):
    sized = m
    m = m or rng.choice([1, 2, 3, 3, 4, 5, 7])
    n = n or rng.choice([1, 2, 3, 4, 6])
    if not sized and rng.random() < 0.02:
        m, n = rng.choice([(17, 2), (3, 20), (10, 10)])
    ints = rng.random() < 0.5
    general = rng.random() < 0.65
    F = [sym(rng, m, ints) for _ in range(n)]
    z = [float(rng.randint(-2, 2)) if ints else rng.gauss(0, 1) for _ in range(n)]
    # make z feasible by construction, most of the time
    P = psd(rng, m, ints)
    B = None
    if general:
        B = [[P[i][j] + sum(F[k][i][j] * z[k] for k in range(n)) for j in range(m)] for i in range(m)]
        for i in range(m):
            for j in range(i):
                B[j][i] = B[i][j]
    else:
        z[0] = 1.0
        F[0] = [[P[i][j] - sum(F[k][i][j] * z[k] for k in range(1, n)) for j in range(m)] for i in range(m)]
        for i in range(m):
            for j in range(i):
                F[0][j][i] = F[0][i][j]
    sc = rng.choice([1.0, 1.0, 1.0, 2.0 ** -30, 2.0 ** 20])
    F = [[[v * sc for v in r] for r in f] for f in F]
    B = [[v * sc for v in r] for r in B] if B else None
    zs = [z] + [[v + rng.gauss(0, 0.2) for v in z] for _ in range(3)] + [[2 * v for v in z], [3.0 * v for v in z]]
    xs = []
    for _ in range(rng.choice([2, 5, 9])):
        k = rng.random()
        if k < 0.25:
            xs.append(list(z))
        elif k < 0.5:
            xs.append([v + rng.gauss(0, 0.3) for v in z])
        elif k < 0.6:
            xs.append([0.0] * n)
        else:
            xs.append([float(rng.randint(-4, 4)) if ints else rng.gauss(0, 3) for _ in z])
    if rng.random() < 0.5:
        xs.append(xs[0])
    units = [2.0 ** rng.randint(-60, 60) for _ in range(n)] if rng.random() < 0.25 else None
    return hist(F, B, xs, zs, units)


def run(ctx):
    rng = ctx.rng
    hs = []
    for nv, gen, e, mod in [(1, True, 1, 1), (1, False, 2, 1), (2, False, 1, 1), (2, True, 1, 101)] if not ctx.thorough() else \
            [(1, True, 2, 1), (1, False, 4, 1), (2, False, 2, 3), (2, True, 1, 7)]:
        out = os.path.join(ctx.work, "gen%d%d.ndjson" % (nv, gen))
        ctx.model_check("MC_LMI", "CONSTANTS E = %d G = 2 NV = %d General = %s Mod = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n"
                        % (e, nv, "TRUE" if gen else "FALSE", mod), {"OUT": out})
        cases = []
        for line in open(out):
            g = json.loads(line)
            cases.append(json.loads(g) if isinstance(g, str) else g)
        cases.sort(key=json.dumps)
        ctx.detail["inequalities enumerated (%d variables, %s)" % (nv, "B given" if gen else "B absent")] = len(cases)
        grid = [[float(i)] for i in range(-2, 3)] if nv == 1 else [[float(i), float(j)] for i in range(-2, 3) for j in range(-2, 3)]
        for c in cases:
            F = [[[float(v) for v in r] for r in f] for f in c["f"]]
            B = [[float(v) for v in r] for r in c["b"]] if gen else None
            xs = grid if nv == 1 else rng.sample(grid, 6)
            hs.append(hist(F, B, rng.sample(xs, len(xs)), rng.sample(grid, min(6, len(grid)))))
    ctx.log("model checked")
    for _ in range(ctx.sample(700, 8000)):
        hs.append(random_hist(rng))
    for k in range(1, 21):
        hs.append(random_hist(rng, k, 2))
        hs.append(random_hist(rng, 2, k))
    rec = ctx.harness(hs)
    outs = [o for x in rec for e in x.get("log", []) for o in e["outs"]]
    ctx.detail["queries"] = len(outs)
    ctx.detail["feasible answers"] = sum(1 for o in outs if o.get("feas"))
    ctx.validate("T_LMI", rec, CFG)


CHECKS = {"P16": run}
NOTES = {"P16": ("TLA+ spec of the matrix-inequality oracle (cut validity model checked on all small integer inequalities and grid points, replayed); recorded query histories validated in 50-digit arithmetic",
                 "Orders to 7 and 6 variables (a few to 17 and 20). The cut is compared with the witness of the first non-definite leading block and tested on sampled feasible points; near-singular inexact pivots (1e-7) are ties.")}
