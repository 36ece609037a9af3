"""P13-P15: the factorization manager."""
import json, os
from fractions import Fraction
from .core import fmt, fmts

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def dyadic(x):
    d = x.denominator
    return d & (d - 1) == 0 and d < 2 ** 20 and abs(x.numerator) < 2 ** 40


def exactly(a):
    """Is the whole factorization of `a` exact in floating point (both modes)?"""
    n = len(a)
    if not all(dyadic(Fraction(x)) for r in a for x in r):
        return False
    for semi in (False, True):
        start, st = 0, {}
        for i in range(n):
            diag = Fraction(a[i][start])
            for j in range(start, i):
                st[j, i] = diag
                v = diag / st[j, j]
                st[i, j] = v
                if not dyadic(v):
                    return False
                s = sum((st[i, k] * st[k, j + 1] for k in range(start, j + 1)), Fraction(0))
                diag = Fraction(a[i][j + 1]) - s
                if not dyadic(diag):
                    return False
            st[i, i] = diag
            if not semi and diag <= 0:
                break
            if semi and diag < 0:
                break
            if semi and diag == 0:
                start = i + 1
    return True


def int_ldl(rng, n, signs):
    """L D L' with small integers: exact pivots; `signs` gives the pivots."""
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        L[i][i] = 1
        for j in range(i):
            L[i][j] = rng.choice([-2, -1, 0, 0, 1, 2])
    d = [{1: rng.choice([1, 2, 3, 4, 8]), 0: 0, -1: -rng.choice([1, 2, 3])}[s] for s in signs]
    return [[sum(L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def matrix(rng, n):
    k = rng.random()
    if k < 0.45:
        signs = [1] * n
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            signs[rng.randrange(n)] = rng.choice([0, -1])
        a = int_ldl(rng, n, signs)
        if rng.random() < 0.2:      # indefinite with a zero pivot whose column is not zero
            i, j = rng.randrange(n), rng.randrange(n)
            a[i][j] += 1
            if i != j:
                a[j][i] += 1
        sc = 2.0 ** rng.choice([0, 0, -3, 5, -20, 30])
        return [[x * sc for x in r] for r in a]
    if k < 0.55:
        a = [[0.0] * n for _ in range(n)]
        for i in range(n):
            a[i][i] = float(rng.choice([0, 1, 1, 2, -1]))
        return a
    sc = 10.0 ** rng.choice([0, 0, -6, 6, -12])
    m = n + rng.choice([-1, 0, 2])
    b = [[rng.gauss(0, 1) for _ in range(max(1, m))] for _ in range(n)]
    shift = rng.choice([0.0, 0.1, 1.0, -0.1, -0.5])
    a = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            a[i][j] = a[j][i] = (sum(x * y for x, y in zip(b[i], b[j])) / n + (shift if i == j else 0.0)) * sc
    if rng.random() < 0.3:
        k = rng.randrange(n)
        a[k][k] -= rng.uniform(0, 3) * sc
    return a


def units(rng, a, exact):
    """The same matrix in other units: all of it, or each coordinate by itself.  Returns it with the units and exactness."""
    n, k = len(a), rng.random()
    if k < 0.7:
        return a, [1.0] * n, exact
    if k < 0.85:
        d = [2.0 ** rng.choice([-400, -60, -37, -30, 35, 60, 400])] * n
    else:
        d = [2.0 ** rng.randint(-20, 20) for _ in range(n)]
    return [[a[i][j] * d[i] * d[j] for j in range(n)] for i in range(n)], d, False


def wire(a):
    return [fmts(r) for r in a]


def factor(a, mode, exact=None):
    return {"op": "factor", "mode": mode, "a": wire(a), "exact": exactly(a) if exact is None else exact}


def history(rng, n, steps, focus):
    ops = []
    for _ in range(steps):
        a = matrix(rng, n)
        a, d, ex = units(rng, a, exactly(a))
        mode = rng.choice(["full", "lazy", "semi"] if focus != "semi" else ["semi", "semi", "lazy"])
        ops.append(factor(a, mode, ex))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append({"op": rng.choice(["witness", "witness", "sqrt"])})
        if rng.random() < 0.7:
            ops.append({"op": "witness"})
            for _ in range(rng.choice([1, 2])):
                b = [[0.0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i + 1):
                        b[i][j] = b[j][i] = rng.gauss(0, 1) if rng.random() < 0.7 else float(rng.randint(-3, 3))
                if rng.random() < 0.7:
                    b = [[b[i][j] * d[i] * d[j] for j in range(n)] for i in range(n)]
                if rng.random() < 0.2:
                    b = a
                ops.append({"op": "quad", "b": wire(b)})
        ops.append({"op": "sqrt"})
    return {"kind": "ldlt", "n": n, "ops": ops}


def generated(ctx):
    """All small integer matrices from the specification, several per object, in both modes."""
    hs = []
    for n, lo, hi in [(2, -2, 3), (3, -1, 2)] if not ctx.thorough() else [(1, -2, 2), (2, -4, 5), (3, -2, 2), (4, 0, 1)]:
        out = os.path.join(ctx.work, "gen%d.ndjson" % n)
        cfg = "CONSTANTS N = %d Neg = %d Hi = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n"
        ctx.model_check("MC_LDLT", cfg % (n, -lo, hi), {"OUT": out})
        ms = []
        for line in open(out):
            g = json.loads(line)
            ms.append(json.loads(g) if isinstance(g, str) else g)
        ms.sort()
        ctx.rng.shuffle(ms)
        ctx.detail["matrices enumerated (order %d)" % n] = len(ms)
        b = [[1.0 + i + j + (i == j) for j in range(n)] for i in range(n)]
        for i in range(0, len(ms), 10):
            ops = []
            for a in ms[i:i + 10]:
                a = [[float(x) for x in r] for r in a]
                ex = exactly(a)
                for mode in ("full", "semi"):
                    ops += [factor(a, mode, ex), {"op": "witness"}, {"op": "quad", "b": wire(b)}, {"op": "sqrt"}]
            hs.append({"kind": "ldlt", "n": n, "ops": ops})
    return hs


def run(focus):
    def check(ctx):
        hs = generated(ctx)
        ctx.log("enumerated")
        rng = ctx.rng
        for i in range(ctx.sample(300, 4000)):
            n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8])
            hs.append(history(rng, n, rng.choice([1, 4, 8]), focus))
        for n in list(range(1, 33)) + [15, 24] * ctx.scale(2, 10) + [33, 40] * ctx.scale(1, 6):
            hs.append(history(rng, n, 2, focus))
        rec = ctx.harness(hs)
        ctx.detail["factorizations"] = sum(1 for x in rec for e in x.get("log", []) if e["op"] == "factor")
        ctx.detail["exact (ties judged)"] = sum(1 for x in rec for e in x.get("log", []) if e["op"] == "factor" and e["exact"])
        ctx.detail["failed factorizations"] = sum(1 for x in rec for e in x.get("log", []) if e["op"] == "factor" and not e["out"].get("ok"))
        ctx.validate("T_LDLT", rec, CFG)
    return check


_T = "TLA+ spec of the factorization manager (Sylvester's criterion model checked on all small integer matrices, all replayed); recorded reuse histories validated in 50-digit arithmetic"
CHECKS = {"P13": run("plain"), "P14": run("plain"), "P15": run("semi")}
NOTES = {
    "P13": (_T, "Every symmetric integer matrix of order 2 and 3 in a range, in both modes, plus random ones to order 24 with reuse of the object. Zero pivots are judged strictly when the floating-point factorization is exact, otherwise pivots below 1e-7 of the diagonal are ties."),
    "P14": (_T, "As P13; the witness and quadratic forms are recomputed from the recorded vectors."),
    "P15": (_T, "As P13; the square root is multiplied out. The semidefinite mode is one-sided by design (a non-zero column at a zero pivot is not noticed)."),
}
