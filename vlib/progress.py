"""P30: the rate at which the method closes in."""
import math
from .core import fmt, fmts
from . import space as sp
from .runs import centre, enough, mean_axis, norm, space, unit

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"


def pursuit(rng, big):
    n = rng.choice([2, 2, 3, 4, 5, 6] + big)
    sc = 10.0 ** rng.choice([0, 0, 0, -6, 6])
    z = [rng.gauss(0, 1) * sc for _ in range(n)]
    off = rng.choice([0.5, 2.0, 5.0]) * sc
    driver = rng.choice(["feas", "feas", "optim"])
    if driver == "feas":
        r = sc * 10.0 ** rng.uniform(-3, -0.5)
    else:
        r = sc * rng.uniform(0.3, 1.0)
    s = space(rng, centre(rng, z, off), off + r * math.sqrt(n) * 1.1)
    u = 10.0 ** rng.choice([0, 0, 0, -8, 8, rng.uniform(-3, 3)])
    goal = r if driver == "feas" else sc * 10.0 ** rng.uniform(-3, -0.5)
    steps = enough(s, goal)
    return {"kind": "e2e", "driver": driver, "space": s,
            "prob": {"type": "pursuit", "z": fmts(z), "r": fmt(r), "unit": fmt(u), "seed": rng.randrange(2**31),
                     "mode": rng.choice(["direct", "hostile", "any", "deep", "slab"])},
            "tol": fmt(rng.choice([0.0, 0.0, (goal * u * rng.uniform(1e-6, 0.9)) ** 2])),
            "max": rng.choice([steps, steps, steps, steps // 2, 2 * steps])}


def p30(ctx):
    rng = ctx.rng
    t = ctx.thorough()
    ctx.model_check("MC_Progress", "CONSTANTS Dims = {2, 3, 4, 7, 12%s} Q = %d K = %d\nINIT Init\nNEXT Next\nINVARIANTS Law Deeper\nCHECK_DEADLOCK FALSE\n"
                    % ((", 5, 20, 40", 5, 3) if t else ("", 4, 2)))
    ctx.log("model checked")
    hs = []
    for i in range(ctx.sample(150, 2500)):
        n = sp.dims(rng, [8, 12] if i % 4 == 0 else [])
        impl = ["ell", "stable", "ell"][i % 3]
        hs.append(sp.history(rng, [sp.obj(rng, n, impl, nodefer=i % 3 == 2)], 25, sp.GOOD + ["q", "pq"]))
    ctx.detail["cuts whose volume was measured"] = sum(len(x["ops"]) for x in hs)
    k = 0
    for _ in range(ctx.sample(1200, 20000)):
        hs.append(pursuit(rng, [8, 10] if k % 4 == 0 else []))
        k += 1
    ctx.detail["pursuits"] = k
    rec = ctx.harness(hs)
    outs = [x["out"] for x in rec if "out" in x]
    ctx.detail["steps in pursuits"] = sum(o.get("iters", 0) for o in outs)
    ctx.detail["pursuits that found their point"] = sum(1 for o in outs if o.get("found"))
    ctx.validate("T_Progress", rec, CFG)


CHECKS = {"P30": p30}
NOTES = {"P30": ("TLA+ spec of the volume law and the step bound (model checked over all sequences of depths on a grid); recorded cuts measured and pursuit runs of the drivers judged against it",
                 "Volumes are determinants of the recorded shapes, independent of the update formulas. Pursuits: dimensions 2-10, cuts from direct to as hostile as the kept ball allows, radii to 1e-3 of the start.")}
