"""P25: the array type."""
import json, math, os
from decimal import Decimal
from .core import fmt, fmts
from .small import generated

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"
BASE = {"x": 0, "y": 0, "to": 0, "s": "0", "n": 0, "r": 0, "c": 0, "i": 0, "j": 0, "a": "0", "b": "0", "v": []}


def op(k, **kw):
    o = dict(BASE, op=k)
    o.update(kw)
    return o


STARTS = {1: [("v", [1, -2]), ("v", [3, 4]), ("m", 2, 2, [1, 2, 2, -1])],
          2: [("v", [1, 2, 3]), ("m", 2, 3, [1, 0, -1, 2, 5, 3]), ("v", [2, -1])],
          3: [("v", []), ("m", 1, 2, [7, -3]), ("v", [5])]}


def start(p):
    ops = []
    for i, a in enumerate(STARTS[p]):
        if a[0] == "v":
            ops.append(op("from", to=i, v=fmts(a[1])))
        else:
            ops.append(op("from_shape_vec", to=i, r=a[1], c=a[2], v=fmts(a[3])))
    return ops


def replay(prog):
    ops = start(prog[0])
    for k, x, y, to in prog[1:]:
        ops.append(op(k, x=x, y=y, to=to, s="2", n=2, r=2, c=2, i=1, j=0, a="-1", b="3", v=["1", "-2", "0.5", "4"]))
    return {"kind": "arr", "n": 3, "ops": ops}


def number(rng):
    k = rng.random()
    if k < 0.3:
        return float(rng.randint(-5, 5))
    if k < 0.4:
        return rng.choice([1, -1]) * 10.0 ** rng.uniform(-30, 30)
    if k < 0.45:
        return rng.choice([0.0, -0.0, 1e-9, 1e9])
    return rng.gauss(0, 3)


def arr(rng, to, dims=None):
    """An operation that fills register `to`; returns (op, (rows, cols))."""
    big = rng.random() < 0.05
    n = rng.choice([0, 1, 2, 3, 4, 7]) if not big else rng.choice([33, 64, 100])
    r, c = dims or (rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])) if rng.random() < 0.97 else dims or rng.choice([(17, 33), (40, 3), (3, 70)])
    k = rng.random()
    if dims and dims[1] == 0 or (not dims and k < 0.5):
        n = dims[0] if dims else n
        kind = rng.choice(["from", "from_slice", "into", "from_fn", "new", "ones", "linspace"])
        o = op(kind, to=to, n=n, a=fmt(number(rng)), b=fmt(number(rng)), v=fmts([number(rng) for _ in range(n)]))
        return o, (n, 0)
    kind = rng.choice(["from_shape_vec", "with_data", "full", "zeros"] + (["eye"] if r == c else []))
    return op(kind, to=to, n=r, r=r, c=c, s=fmt(number(rng)), v=fmts([number(rng) for _ in range(r * c)])), (r, c)


def program(rng, steps):
    R = 3
    ops, dims = [], [(0, 0)] * R

    def fill(i, d=None):
        o, dd = arr(rng, i, d)
        ops.append(o)
        dims[i] = dd
    for i in range(R):
        fill(i, dims[rng.randrange(i)] if i and rng.random() < 0.5 else None)
    for _ in range(steps):
        x, y, to = rng.randrange(R), rng.randrange(R), rng.randrange(R)
        k = rng.random()
        dx, dy = dims[x], dims[y]
        if k < 0.12:
            fill(to, dims[x] if rng.random() < 0.6 else None)
        elif k < 0.22:
            kind = rng.choice(["add_s", "sub_s", "mul_s", "div_s", "iter_mut", "data_mut"])
            v = number(rng)
            ops.append(op(kind, x=x, s=fmt(v if v or kind != "div_s" else 2.0)))
        elif k < 0.34:
            kind = rng.choice(["ref_mul_s", "own_mul_s", "s_mul_ref", "s_mul_own", "ref_div_s", "own_div_s", "neg_ref", "neg_own", "map", "abs", "sqrt", "cos", "ln", "exp", "clone", "same_shape"])
            v = number(rng)
            ops.append(op(kind, x=x, to=to, s=fmt(v if v or "div" not in kind else 2.0), a=fmt(number(rng)), b=fmt(number(rng))))
            dims[to] = dx
        elif k < 0.55:
            kind = rng.choice(["add_assign", "sub_assign", "own_add", "own_sub", "own_mul", "ref_add", "ref_sub", "ref_mul"])
            if dims[y] != dx and rng.random() < 0.8:
                if y == x:
                    continue
                fill(y, dx)
            ops.append(op(kind, x=x, y=y, to=to))
            size = lambda d: d[0] * d[1] if d[1] else d[0]
            if "assign" not in kind and size(dims[x]) == size(dims[y]):
                dims[to] = dims[x]
        elif k < 0.65:
            if dx[1] and rng.random() < 0.85:
                y = (x + 1) % R
                fill(y, (dx[1], 0))
            ops.append(op("dot_mv", x=x, y=y, to=to))
            if dx[1] and not dims[y][1] and dx[1] == dims[y][0]:
                dims[to] = (dx[0], 0)
        elif k < 0.72:
            kind = rng.choice(["dot", "outer"])
            ops.append(op(kind, x=x, y=y, to=to))
            if kind == "outer" and not dx[1] and not dy[1]:
                if dx[0] * dy[0] > 1200:
                    ops.pop()
                    continue
                dims[to] = (dx[0], dy[0])
        elif k < 0.8:
            n = rng.choice([1, 2, 3, 5]) if rng.random() < 0.95 else rng.choice([17, 36])
            z = (x + 1) % R
            fill(z, (n, 0))
            ops.append(op("from_diag", x=z, to=x))
            dims[x] = (n, n)
            for _ in range(rng.choice([1, 2, 3])):
                fill(z, (n, 0))
                ops.append(op("rank1", x=x, y=z, s=fmt(number(rng))))
            if rng.random() < 0.2:
                fill(z, (n + 1, 0))
                ops.append(op("rank1", x=x, y=z, s="1"))
        elif k < 0.86:
            i = rng.randrange(max(1, dx[0])) if rng.random() < 0.9 else dx[0] + rng.randint(0, 2)
            if dx[1]:
                ops.append(op(rng.choice(["get", "set", "set_at", "set_idx2"]), x=x, i=i, j=rng.randrange(dx[1]), s=fmt(number(rng))))
            else:
                ops.append(op(rng.choice(["get1", "set_idx"]), x=x, i=i, s=fmt(number(rng))))
        elif k < 0.9:
            i = rng.randrange(max(1, dx[0])) if rng.random() < 0.9 else dx[0] + rng.randint(0, 2)
            ops.append(op("row", x=x, i=i, to=to))
            if dx[1] and i < dx[0]:
                dims[to] = (dx[1], 0)
        elif k < 0.95:
            ops.append(op(rng.choice(["shape", "eq", "sum", "sum"]), x=x, y=y))
        elif k < 0.98:
            if rng.random() < 0.7 and y != x:
                fill(y, dx)
            ops.append(op("copy_from", x=x, y=y))
        else:
            r, c = rng.randint(1, 3), rng.randint(1, 3)
            ops.append(op(rng.choice(["from_shape_vec", "with_data"]), to=to, r=r, c=c, v=fmts([1.0] * (r * c + rng.choice([-1, 1])))))
            a = float(rng.randint(-4, 4)) + rng.choice([0.0, 0.5])
            m = rng.randint(-2, 9)
            b = (a + m + rng.choice([0.0, 0.0, 0.25, 0.5, 0.75, 2.0 ** -rng.randint(3, 44), -2.0 ** -rng.randint(3, 44)]))
            ops.append(op("arange", to=to, a=fmt(a), b=format(Decimal(b), "f")))     # (all digits: how many fit is exact)
            dims[to] = (max(math.floor(b - a), 0), 0)
    return {"kind": "arr", "n": R, "ops": ops}


def large(rng, n, binary):
    """One operation on long vectors, or on a matrix with long rows or many of them."""
    vec = lambda to, m=n: op("from", to=to, n=m, v=fmts([rng.gauss(0, 3) for _ in range(m)]))
    s = fmt(rng.uniform(0.5, 3))
    k = rng.random()
    if binary == "dot_mv" or binary == "row":
        r, c = (n, 2) if k < 0.5 else (2, n)
        return {"kind": "arr", "n": 3, "ops": [op("from_shape_vec", to=0, r=r, c=c, v=fmts([rng.gauss(0, 3) for _ in range(r * c)])), vec(1, c),
                                               op(binary, x=0, y=1, to=2, i=r - 1)]}
    if binary == "outer":
        m = 2 if k < 0.5 else n
        return {"kind": "arr", "n": 3, "ops": [vec(0, m), vec(1, 2 * n // m), op("outer", x=0, y=1, to=2)]}
    return {"kind": "arr", "n": 3, "ops": [vec(0), vec(1), op(binary, x=0, y=1, to=2, s=s, a=fmt(rng.uniform(-3, 3)), b=fmt(rng.uniform(-3, 3)), n=n, i=n - 1)]}


LARGE = ["add_s", "sub_s", "mul_s", "div_s", "iter_mut", "data_mut", "ref_mul_s", "own_mul_s", "s_mul_ref", "s_mul_own", "ref_div_s", "own_div_s",
         "neg_ref", "neg_own", "map", "abs", "cos", "exp", "clone", "same_shape", "add_assign", "sub_assign", "own_add", "own_sub", "own_mul",
         "ref_add", "ref_sub", "ref_mul", "dot", "sum", "copy_from", "dot_mv", "row", "outer", "linspace", "from_fn", "ones", "new", "eq"]


def sweep(rng, n, k):
    """One operation at a middling size (every residue of a blocked loop)."""
    m = rng.randint(5, 20)
    vec = lambda to, m: op("from", to=to, n=m, v=fmts([rng.gauss(0, 3) for _ in range(m)]))
    mat = lambda to, r, c: op("from_shape_vec", to=to, r=r, c=c, v=fmts([rng.gauss(0, 3) for _ in range(r * c)]))
    if k in ("dot_mv", "row"):
        r, c = rng.choice([(n, m), (m, n)])
        ops = [mat(0, r, c), vec(1, c), op(k, x=0, y=1, to=2, i=rng.randrange(r))]
    elif k == "outer":
        ops = [vec(0, n), vec(1, m), op(k, x=0, y=1, to=2)]
    elif k == "rank1":
        ops = [vec(1, n), op("from_diag", x=1, to=0), vec(1, n), op(k, x=0, y=1, s=fmt(rng.gauss(0, 1))), vec(2, n), op(k, x=0, y=2, s=fmt(rng.gauss(0, 1)))]
    elif k in ("ln", "sqrt"):
        ops = [op("from", to=0, n=n, v=fmts([10.0 ** rng.uniform(-3, 3) for _ in range(n)])), op(k, x=0, to=2)]
    elif k in ("eye", "zeros", "full"):
        ops = [op(k, to=0, n=n, r=n, c=m, s=fmt(rng.gauss(0, 1)))]
    elif rng.random() < 0.3:
        ops = [mat(0, n, 3), mat(1, n, 3), op(k, x=0, y=1, to=2, s=fmt(rng.uniform(0.5, 3)), a="-1", b="2", n=n, i=n - 1)]
    else:
        ops = [vec(0, n), vec(1, n), op(k, x=0, y=1, to=2, s=fmt(rng.uniform(0.5, 3)), a=fmt(rng.uniform(-3, 3)), b=fmt(rng.uniform(-3, 3)), n=n, i=n - 1)]
    return {"kind": "arr", "n": 3, "ops": ops}


def run(ctx):
    rng = ctx.rng
    hs = []
    for pick, depth in [("{1, 2, 3}", 1), ("{1}", 2), ("{2}", 2)] if not ctx.thorough() else [("{1, 2, 3}", 2)]:
        out = os.path.join(ctx.work, "gen%s%d.ndjson" % (pick[1], depth))
        ctx.model_check("MC_Arr", "CONSTANTS Depth = %d Kinds = {} Pick = %s\nINIT Init\nNEXT Next\nINVARIANTS Inv Laws Emit\nCHECK_DEADLOCK FALSE\n" % (depth, pick), {"OUT": out})
        ps = generated(out)
        ctx.detail["programs enumerated (%s, length %d)" % (pick, depth)] = len(ps)
        if depth == 2 and not ctx.thorough():
            ps = rng.sample(ps, min(len(ps), 2500))
        hs += [replay(p) for p in ps]
    ctx.log("model checked")
    for _ in range(ctx.sample(700, 15000)):
        hs.append(program(rng, rng.choice([3, 8, 15])))
    for k in LARGE:
        for n in ctx.scale([rng.choice([257, 300, 511]), rng.choice([1000, 1025])], [257, 511, 1000, 1025, 4097]):
            hs.append(large(rng, n, k))
    for n in ctx.scale(range(5, 37), range(5, 70)):
        for k in LARGE + ["rank1", "ln", "sqrt", "eye", "zeros", "full"]:
            hs.append(sweep(rng, n, k))
    rec = ctx.harness(hs)
    q = [e for x in rec for e in x.get("log", [])]
    ctx.detail["operations"] = len(q)
    ctx.detail["refused"] = sum(1 for e in q if "panic" in e["out"])
    ctx.detail["kinds of operation"] = len({e["op"] for e in q})
    ctx.validate("T_Arr", rec, CFG)


CHECKS = {"P25": run}
NOTES = {"P25": ("TLA+ spec of the array type over a register file (all programs of two operations on small arrays model checked and replayed); recorded random programs validated step by step in 50-digit arithmetic",
                 "53 operations, each at every size from 5 to 36 (thorough: 69); vectors to about 1000 (thorough: 4097) entries, mostly small matrices, some with long rows or many. Elementwise operations on equal sizes but different shapes, out-of-range columns, non-square or asymmetric rank-one updates, division by zero and fractional-length ranges are not specified.")}
