"""P29: error values and options."""
import json, os
from .core import fmt
from .small import generated

CFG = "INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n"
KINDS = ["NonConvergence", "Infeasible", "NumericalInstability", "InvalidParameters", "MatrixError"]
FIELDS = {"NonConvergence": ["iterations", "max_iters", "value"], "NumericalInstability": ["text", "value"]}


def num(x):
    """As the harness prints numbers, so that equal values are equal texts."""
    return "none" if x is None else repr(float(x))


def err(rng):
    return {"which": rng.choice(KINDS), "iterations": rng.choice([0, 1, 7, 100, 2000, 2**31 - 1, rng.randrange(10**6)]),
            "max_iters": rng.choice([0, 1, 7, 200, 2000, rng.randrange(10**6)]),
            "text": rng.choice(["x", "Constraints conflict", "", "a {} b", "non-ascii \u03b3", "line\nbreak", " padded\t", "%s", "y" * 300]),
            "value": rng.choice(["none", "0.0", "0.5", "-1.5", "1e-20", "1e300", "inf", num(rng.gauss(0, 1)), num(rng.gauss(0, 1e-9))])}


def p29(ctx):
    rng = ctx.rng
    out = os.path.join(ctx.work, "gen.ndjson")
    ctx.model_check("MC_Errors", 'CONSTANTS Nums = {3, 14} Texts = {"abc", "de"} Vals = {"0.25", "-8.0"}\nINIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n', {"OUT": out})
    pairs = generated(out)
    ctx.detail["pairs of errors enumerated"] = len(pairs)
    ctx.log("model checked")
    steps = [dict(p, op="pair") for p in pairs]
    for _ in range(ctx.sample(1500, 40000)):
        a = err(rng)
        b = dict(a) if rng.random() < 0.5 else err(rng)
        if b == a and rng.random() < 0.8:
            k = rng.choice(["which", "iterations", "max_iters", "text", "value"])
            b[k] = err(rng)[k]
        steps.append({"op": "pair", "a": a, "b": b})
    steps.append({"op": "default"})
    for _ in range(ctx.sample(200, 2000)):
        steps.append({"op": "new", "max_iters": rng.choice([0, 1, 2000, 2**31 - 1, rng.randrange(10**6)]),
                      "tolerance": fmt(rng.choice([0.0, 1e-20, 1.0, 1e300, 10 ** rng.uniform(-30, 5)]))})
    ctx.validate("T_Errors", ctx.harness([{"kind": "errors", "steps": steps[i:i + 50]} for i in range(0, len(steps), 50)]), CFG)


CHECKS = {"P29": p29}
NOTES = {"P29": ("TLA+ spec of the error values and options (all pairs of small errors model checked and replayed); recorded messages, comparisons and options validated against it",
                 "All pairs over two numbers, texts and values per field, and random ones. A datum counts as named if the message contains its text, or a number equal to it; wording is not judged.")}
