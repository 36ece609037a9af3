"""P07, P08: the cut calculators."""
import math
from .core import fmt

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"
DIMS = [2, 3, 4, 5, 7, 10, 17, 50, 100, 1000, 70000]
FNS = ["sp_bias", "sp_central", "sp_q", "p_bias", "p_central", "p_q", "bias", "q", "central"]
TWO = {"sp_bias", "sp_central", "sp_q", "p_bias", "p_central", "p_q", "core_pbias", "core_pbias_fast", "core_pbias_old", "core_pcentral"}
CORE = ["core_pbias", "core_pbias_fast", "core_pbias_old", "core_pcentral", "core_bias", "core_bias_fast", "core_central"]


def call(fn, b0, b1, tsq, exact=False):
    c = {"fn": fn, "b0": fmt(b0), "tsq": fmt(tsq), "exact": exact}
    if fn in TWO and b1 is not None:
        c["b1"] = fmt(b1)
    return c


def exact_calls(n, q, k, classify):
    """Depths i/q of the half-width q * 2^k: every product and root is exact, so ties are judged."""
    s = 2.0 ** k
    tsq = (q * s) ** 2
    out = []
    for fn in FNS:
        single = fn not in TWO
        bias = fn in ("sp_bias", "p_bias", "bias")
        central = "central" in fn
        for i0 in (range(0, q + 3) if bias else [0] if central and single else range(-q - 2, q + 3)):
            for i1 in ([None] if single else list(range(-q - 2, q + 3)) + ([None] if fn.startswith("sp") else [])):
                if central and i0 not in (0, 1, -q - 1):
                    continue
                if i1 is not None and i0 == i1 and abs(i0) == q and not classify:
                    continue        # a single point: no parameters to speak of
                if i1 is not None and i1 == -q and not central and not classify:
                    continue
                out.append(call(fn, i0 * s, None if i1 is None else i1 * s, tsq, True))
    return out


def random_calls(rng, n, count):
    out = []
    while len(out) < count:
        tau = 10.0 ** rng.choice([rng.uniform(-25, 25), rng.uniform(-25, 25), rng.uniform(-65, 65)]) if rng.random() < 0.7 else rng.uniform(0.1, 10)
        tsq = tau * tau
        fn = rng.choice(FNS + CORE)
        bias = "bias" in fn
        shape = rng.random()

        def depth(lo, hi):
            r = rng.random()
            if r < 0.1:
                return rng.choice([0.0, 1e-9, -1e-9, 1e-4, 1 - 1e-6, 1 - 1e-3, 1.0001, -1 / n * (1 - 1e-6), -1 / n * (1 + 1e-6), -1 / n / 2])
            if r < 0.15:
                return rng.choice([3.0, 100.0, -3.0, -100.0])
            return rng.uniform(lo, hi)
        a0 = depth(0, 1.05) if bias else depth(-1.2, 1.05)
        if rng.random() < 0.2 and not bias:
            a0 = depth(-1.5 / n, 1.5 / n)
        a1 = None
        if fn in TWO and (not fn.startswith("sp") or rng.random() < 0.8):
            a1 = depth(-1.1, 1.2) if shape < 0.3 else a0 + rng.choice([1e-4, 1e-2, 0.1, 0.5, 1.0]) * rng.random()
        if bias:
            a0 = abs(a0)
        if fn.startswith("core"):
            a0, a1 = min(a0, 0.999) if a0 > -1 else 0.2, a1
            if a1 is not None:
                a1 = min(a1, 0.9999)
                if "central" in fn:
                    a0, a1 = 0.0, abs(a1)
                elif a1 < a0 + 1e-3 * (100 if fn == "core_pbias_old" else 1) or 1 + n * a0 * a1 < 1e-3:
                    continue
        if a1 is not None and a1 != a0 and abs(a1 - a0) < 1e-7:
            continue
        if a1 is not None and a0 == a1:
            continue
        if a1 is not None and abs(a0) > 0.999999 and abs(a1) > 0.999999:
            continue        # a sliver at one pole
        if a1 is not None and abs(a1 + 1) < 1e-5:
            continue
        out.append(call(fn, a0 * tau, None if a1 is None else a1 * tau, tsq))
    return out


def run(ctx, prop):
    dims = "{2, 3, 5}" if not ctx.thorough() else "{2, 3, 4, 7, 12}"
    ctx.model_check("MC_CutCalc", "CONSTANTS Dims = %s Q = %d Grid = %d\nINIT Init\nNEXT Next\nINVARIANTS Inv InvMin Agree\nCHECK_DEADLOCK FALSE\n"
                    % (dims, ctx.scale(4, 8), ctx.scale(10, 24)))
    ctx.detail["spec states checked for enclosure and minimality"] = ctx.last_states
    ctx.log("model checked")
    hs = []
    for n in DIMS:
        for upc in (True, False):
            for q, k in [(4, 0), (6, -3)] if not ctx.thorough() else [(4, 0), (6, -3), (12, 40), (5, -40), (16, 3)]:
                cs = exact_calls(n, q, k, prop == "P07")
                for i in range(0, len(cs), 100):
                    hs.append({"kind": "calc", "n": n, "upc": upc, "classify": prop == "P07", "calls": cs[i:i + 100]})
            for _ in range(ctx.sample(6, 120)):
                hs.append({"kind": "calc", "n": n, "upc": upc, "classify": prop == "P07", "calls": random_calls(ctx.rng, n, 100)})
    rec = ctx.harness(hs)
    ctx.detail["calls"] = sum(len(x.get("log", [])) for x in rec)
    ctx.validate("T_CutCalc", rec, CFG)


_T = "TLA+ spec of the cut (enclosure and minimality model checked on a grid); recorded calculator calls validated against it in 50-digit arithmetic"
CHECKS = {"P07": lambda c: run(c, "P07"), "P08": lambda c: run(c, "P08")}
NOTES = {
    "P07": (_T, "All depth pairs on exact grids (ties judged exactly, including planes that touch the ellipsoid), eleven dimensions from 2 to 70000, both modes, plus random depths at magnitudes 1e-65..1e65. Bias depths non-negative; ties of inexact inputs accept either side. Parameters are judged only for ineffective cuts (identity) and parallel cuts that act as single ones (against the code's own single cut)."),
    "P08": (_T, "As P07; parameters compared to 1e-11. Zero-width slabs and slivers at a pole excluded."),
}
