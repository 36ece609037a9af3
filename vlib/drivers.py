"""P01-P05: the search drivers."""
import json, os
from .core import fmt

STAT = ["Success", "NoSoln", "NoEffect", "Unknown"]
TOLS = [0.25, 1e-20, 1e10, 1.0, 2000.0]


def measure(rng, m, tol):
    if m == "lt":
        return fmt(tol * rng.choice([0.5, 0.999999999, 0.0, -1.0, 1e-9]))
    if m == "eq":
        return fmt(tol)
    return rng.choice(["inf"] + [fmt(tol * x if tol else 1e-300) for x in (2.0, 1.0000001, 1e30)])


def bound(rng, prev):
    """What an oracle may write as objective bound: anything, also what was there."""
    return rng.choice([prev, prev, fmt(rng.uniform(-100, 100)), "inf", "-inf", "0.0", "1e300", "-1e-300", fmt(float(rng.randint(-9, 9)))])


def decorate(rng, step, tol, prev=None):
    st = {k: v for k, v in step.items() if k in ("a", "imp", "more", "xq", "s")}
    if "gn" in step:
        st["gn"] = fmt(step["gn"]) if prev is None or rng.random() < 0.5 else bound(rng, prev)
    if rng.random() < 0.1:
        st["stay"] = True           # an accepted cut that leaves the centre where it is
    st["t"] = measure(rng, step.get("m", "gt"), tol)
    st.setdefault("s", "Success")
    # the measure is irrelevant once a cut is not accepted (a measure that is not a number
    # counts as not below the tolerance, but only where that does not matter)
    if rng.random() < 0.2 and (st["s"] == "NoSoln" or st["s"] == "NoEffect" and not st.get("more", False) or st["s"] == "Unknown" and "more" not in st):
        st["t"] = "NaN"
    return st


def generated(ctx, kind, maxlim):
    out = os.path.join(ctx.work, "gen_%s.ndjson" % kind)
    cfg = 'CONSTANTS Kind = "%s" MaxLim = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n' % (kind, maxlim)
    ctx.model_check("MC_Drivers", cfg, {"OUT": out}, workers=1)
    cmds = []
    for line in open(out):
        g = json.loads(line)
        g = json.loads(g) if isinstance(g, str) else g
        tol = ctx.rng.choice(TOLS)
        g0 = bound(ctx.rng, "-7.0")
        script, prev = [], g0
        for s in g["script"]:
            script.append(decorate(ctx.rng, s, tol, prev))
            prev = script[-1].get("gn", prev)
        cmds.append({"kind": kind, "lim": g["lim"], "tol": fmt(tol), "gamma0": g0, "script": script})
    ctx.detail["behaviours generated (%s, limit<=%d)" % (kind, maxlim)] = len(cmds)
    return cmds


def random_runs(ctx, kind, count, maxlen):
    """Long runs with a random environment that mostly lets them go on."""
    rng = ctx.rng
    cmds = []
    for i in range(count):
        n = rng.choice([1, 2, 3, 7, 20, 50, 64, 100, 101, 128, 200, 256, 300, 513, 1001, maxlen])
        n = min(n, maxlen) if i > 3 else [2000, 2001, 2049, 5000][i]
        tol = rng.choice(TOLS + [0.0])
        stop_at = n + 5 if i < 4 else rng.choice([n, n - 1, n // 2, rng.randrange(n + 1), n + 5])
        p_imp = rng.choice([0.0, 0.02, 0.2, 0.5, 0.9, 1.0])
        p_q = rng.choice([0.0, 0.1, 0.5, 0.9])
        p_eq = rng.choice([0.0, 0.0, 0.3])
        g, script = -7.0, []
        for k in range(n + 2):
            st = {}
            last = k == stop_at
            if kind == "feas":
                st["a"] = "feasible" if last and rng.random() < 0.5 else "cut"
                st["s"] = "Success"
                st["m"] = "eq" if rng.random() < p_eq else "gt"
                if last and st["a"] == "cut":
                    if rng.random() < 0.5 and tol > 0:
                        st["m"] = "lt"
                    else:
                        st["s"] = rng.choice(STAT[1:])
            else:
                st["imp"] = rng.random() < p_imp
                if st["imp"]:
                    g = round(rng.uniform(-100, 100), 3)
                elif rng.random() < 0.02:
                    g = g + 0.5          # an oracle may write the bound whenever it likes
                st["gn"] = g
                st["s"] = "Success"
                st["m"] = "eq" if rng.random() < p_eq else "gt"
                if kind == "optimq":
                    st["xq"] = rng.randrange(-1000, 100000) + 2000
                    st["more"] = rng.random() < 0.8
                    r = rng.random()
                    if r < p_q:
                        st["s"], st["more"] = "NoEffect", True
                    elif r < p_q + 0.05:
                        st["s"] = "Unknown"
                    if last:
                        st["s"] = rng.choice(["NoSoln", "NoEffect", "Success"])
                        if st["s"] == "NoEffect":
                            st["more"] = False
                        elif st["s"] == "Success" and tol > 0:
                            st["m"] = "lt"
                elif last:
                    if rng.random() < 0.5 and tol > 0:
                        st["m"] = "lt"
                    else:
                        st["s"] = rng.choice(STAT[1:])
            script.append(decorate(rng, st, tol, script[-1].get("gn", "-7.0") if script else "-7.0"))
        big = stop_at < n and (tol > 0 or kind != "optimq") and rng.random() < 0.3       # a limit that is far away
        if big and script[stop_at].get("a") != "feasible" and script[stop_at]["s"] == "Success" and tol == 0:
            big = False
        cmds.append({"kind": kind, "lim": rng.choice([10 ** 6, 2 ** 31 - 1]) if big else n, "tol": fmt(tol), "gamma0": "-7.0", "script": script})
    return cmds


def very_long(ctx, kind):
    """Runs of very many iterations; the end of each is recorded."""
    rng, cmds = ctx.rng, []
    for lim in ctx.scale([65537, 120000], [65537, 120000, 300000, 1000003]):
        script, tol = [], 0.25
        for k in range(rng.choice([7, 11, 97])):
            st = {"s": "Success", "m": rng.choice(["gt", "eq"])}
            if kind == "feas":
                st["a"] = "cut"
            else:
                st.update(imp=rng.random() < 0.3, gn=round(rng.uniform(-9, 9), 2))
                if kind == "optimq":
                    st.update(xq=2000 + rng.randrange(1000), more=rng.random() < 0.8)
                    if rng.random() < 0.4:
                        st.update(s="NoEffect", more=True)
            script.append(decorate(rng, st, tol))
        cmds.append({"kind": kind, "lim": lim, "tol": fmt(tol), "gamma0": "-7.0", "script": script, "len": lim + 5, "tail": 120})
    return cmds


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def trim(h):
    h = dict(h)
    h.pop("script", None)
    return h


def driver_check(kind, quick_lim, thorough_lim):
    def check(ctx):
        cmds = generated(ctx, kind, ctx.scale(quick_lim, thorough_lim))
        ctx.log("%d behaviours" % len(cmds))
        rec = ctx.harness(cmds)
        ctx.validate("T_Drivers", [trim(h) for h in rec], CFG, label="replayed behaviours")
        ctx.log("replayed")
        cmds = random_runs(ctx, kind, ctx.sample(120, 1500), ctx.scale(1001, 2500))
        rec = ctx.harness(cmds + very_long(ctx, kind))
        ctx.validate("T_Drivers", [trim(h) for h in rec], CFG, label="long recorded runs")
    return check


def p04(ctx):
    out = os.path.join(ctx.work, "gen.ndjson")
    cfg = "CONSTANT MaxLim = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n" % ctx.scale(6, 9)
    ctx.model_check("MC_BSearch", cfg, {"OUT": out}, workers=1)
    rng, cmds = ctx.rng, []
    for line in open(out):
        g = json.loads(line)
        g = json.loads(g) if isinstance(g, str) else g
        cmds.append({"kind": "bsearch", "lim": g["lim"], "tol": fmt(float(g["tol"])), "lo": fmt(float(g["lo0"])),
                     "hi": fmt(float(g["hi0"])), "script": g["script"] + [True, False], "exact": True})
    ctx.detail["behaviours generated"] = len(cmds)
    for i in range(ctx.sample(1500, 20000)):
        mag = 10.0 ** rng.randint(-6, 8)
        lo = rng.uniform(-mag, mag)
        hi = lo + rng.choice([0.0, 1e-9, 1.0, 10.0, 1e3]) * rng.random() * rng.choice([1.0, mag])
        if rng.random() < 0.05:
            lo, hi = hi, lo
        lim = rng.choice([0, 1, 2, 5, 20, 40, 60, 100]) if i > 3 else [2000, 2001, 1025, 5000][i]
        thr = rng.uniform(lo, hi)
        tol = rng.choice([0.0, 1e-20, 1e-12, 1e-8, 1e-3, 1.0, 1e3])
        mode = rng.choice(["thr", "rand", "all", "none"])
        far = tol > 1e-12 * max(abs(lo), abs(hi)) and rng.random() < 0.2      # a limit that is far away
        script, a, c = [], lo, hi
        for k in range(300 if far else lim + 2):
            g = a + (c - a) / 2
            ans = {"thr": g >= thr, "rand": rng.random() < 0.5, "all": True, "none": False}[mode]
            script.append(ans)
            if ans:
                c = g
            else:
                a = g
        cmds.append({"kind": "bsearch", "lim": rng.choice([10 ** 6, 2 ** 31 - 1]) if far else lim, "tol": fmt(tol), "lo": fmt(lo), "hi": fmt(hi), "script": script, "exact": False})
    rec = ctx.harness(cmds)
    ctx.validate("T_BSearch", [trim(h) for h in rec], CFG)


def probe_values(rng, n):
    v = []
    for _ in range(n):
        v.append(rng.choice(["0.0", "1.0", "-1e300", fmt(float(rng.randint(-9, 9)))] + v[-1:] * 2) if rng.random() < 0.5 else fmt(rng.uniform(-9, 9)))
    return v


def p05(ctx):
    out = os.path.join(ctx.work, "gen.ndjson")
    probes = ctx.scale(3, 3)
    cfg = "CONSTANTS MaxLim = %d Probes = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n" % (ctx.scale(2, 3), probes)
    ctx.model_check("MC_Adaptor", cfg, {"OUT": out}, workers=1)
    rng, cmds = ctx.rng, []
    for line in open(out):
        g = json.loads(line)
        g = json.loads(g) if isinstance(g, str) else g
        tol = rng.choice(TOLS)
        cmds.append({"kind": "adaptor", "lim": g["lim"], "tol": fmt(tol), "tsq0": fmt(rng.choice([0.0, 3.0, 1e-30, -1.0, 1e300])),
                     "probes": probe_values(rng, probes),
                     "script": [decorate(rng, s, tol) for s in g["script"]]})
    ctx.detail["behaviours generated"] = len(cmds)
    for i in range(ctx.sample(300, 3000)):
        tol, lim = rng.choice(TOLS), rng.choice([1, 2, 3, 5, 10, 40])
        np = rng.choice([1, 2, 4, 8, 20])
        script = []
        for k in range(np):
            n = rng.randrange(lim + 1)
            for j in range(lim):
                st = {"a": "cut", "s": "Success", "m": "gt"}
                if j == n:
                    r = rng.random()
                    if r < 0.6:
                        st["a"] = "feasible"
                    elif r < 0.8:
                        st["s"] = rng.choice(STAT[1:])
                    else:
                        st["m"] = "lt"
                script.append(decorate(rng, st, tol))
                if j == n:
                    break
        cmds.append({"kind": "adaptor", "lim": lim, "tol": fmt(tol), "tsq0": "0.5",
                     "probes": probe_values(rng, np), "script": script})
    rec = ctx.harness(cmds)
    ctx.validate("T_Adaptor", [trim(h) for h in rec], CFG)


CHECKS = {"P01": driver_check("feas", 7, 9), "P02": driver_check("optim", 5, 6), "P03": driver_check("optimq", 3, 3),
          "P04": p04, "P05": p05}

_T = "TLA+ spec model checked by TLC; all its behaviours to a bound replayed in the code; recorded runs validated against it"
NOTES = {
    "P01": (_T, "Exhaustive over all oracle answers, cut outcomes and measures (below/at/above tolerance) for every limit up to the bound, plus random runs of up to about 1000 iterations; the drivers are generic, so scripted oracles and spaces reach every behaviour. Assumes the driver is deterministic and sees only its arguments."),
    "P02": (_T, "As P01, with improvements and the objective bound."),
    "P03": (_T, "As P01, with improvements, alternatives, retry requests and undetermined outcomes."),
    "P04": (_T, "Exhaustive over outcome sequences on exact dyadic intervals; random real intervals, tolerances and limits, judged in 50-digit arithmetic with an error band around the stopping test."),
    "P05": (_T, "Exhaustive over short probe sequences with all inner runs; random longer ones. The scripted space exposes its whole state."),
}
