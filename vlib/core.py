"""Shared machinery of the checks: build, run the harness, run TLC, write evidence, report."""
import json, os, re, subprocess, sys, time, shutil, random, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 4
TLC_TIMEOUT = 700


QUICK = 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def fmt(x):
    """Shortest decimal that round-trips the double."""
    return repr(float(x))


def fmts(v):
    return [fmt(x) for x in v]


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s/%s" % (prop, seed, tier))
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.assumptions = []
        self.bin = None

    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough() else quick

    def sample(self, quick, thorough):
        """Number of random histories (quick: a multiple of the base number, as long as a run stays under a minute)."""
        return thorough if self.thorough() else QUICK * quick

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    # ---- build -----------------------------------------------------------
    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        target = os.path.join(VERIF, "work", "target")
        java = threading.Thread(target=self._javac)
        java.start()
        res = {}

        def cargo(to, *flags):
            res[to] = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", to, *flags],
                                     cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True, timeout=600)
        rel = threading.Thread(target=cargo, args=(target + "-release", "--release"))
        rel.start()
        cargo(target)
        rel.join()
        java.join()
        for r in res.values():
            if r.returncode != 0:
                raise ToolError("harness does not build:\n" + r.stdout[-4000:])
        if len(res) != 2:
            raise ToolError("harness does not build")
        # with and without debug assertions and overflow checks; every third shard uses the latter
        self.bins = [os.path.join(target, "debug", "harness"), os.path.join(target + "-release", "release", "harness")]
        self.bin = self.bins[0]
        if not os.path.exists(os.path.join(self.cls, "HP.class")):
            raise ToolError("javac failed")
        self.log("built")

    def _javac(self):
        self.cls = os.path.join(VERIF, "work", "classes")
        os.makedirs(self.cls, exist_ok=True)
        subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", self.cls,
                        os.path.join(VERIF, "java", "HP.java")], check=False)

    # ---- implementation --------------------------------------------------
    def harness(self, cmds, name="trace", timeout=300, shards=None):
        """Run the histories in `cmds` against the implementation; returns the recorded lines."""
        shards = shards or (NCPU if len(cmds) > 64 else 1)
        parts = [cmds[i::shards] for i in range(shards)]
        outs = [None] * shards
        errs = []

        def go(i):
            data = "".join(json.dumps(c) + "\n" for c in parts[i])
            p = subprocess.Popen([self.bins[i % 3 == 2]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            try:
                out, _ = p.communicate(data, timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                done = out.count("\n")
                errs.append(("hang", parts[i][done] if done < len(parts[i]) else None))
                return
            if p.returncode != 0:
                done = out.count("\n")
                errs.append(("exit %d" % p.returncode, parts[i][done] if done < len(parts[i]) else None))
                return
            outs[i] = [json.loads(x) for x in out.splitlines()]

        ts = [threading.Thread(target=go, args=(i,)) for i in range(shards)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for what, cmd in errs:
            if what == "exit 3":
                raise ToolError("harness refused its input: %s" % json.dumps(cmd)[:400])
            # the code under test does not terminate, or takes the process down (abort, stack overflow)
            raise Violation("the implementation does not return (%s)" % what, self.replay(cmd, what))
        res = [None] * len(cmds)
        for i in range(shards):
            if len(outs[i]) != len(parts[i]):
                raise ToolError("harness lost output")
            res[i::shards] = outs[i]
        return res

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, timeout=None, extra=(), xmx="6g", strict=False):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns (ok, output)."""
        name = "%s_%d" % (module, len(os.listdir(self.work)))
        cfgf = os.path.join(self.work, name + ".cfg")
        open(cfgf, "w").write(cfg)
        meta = os.path.join(self.work, name + ".states")
        e = dict(os.environ, **(env or {}))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + self.work, "-cp",
               ":".join([self.cls, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-config", cfgf, "-metadir", meta, "-noTE", "-nowarning",
               "-workers", str(workers or NCPU), *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout or TLC_TIMEOUT)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(x for x in r.stdout.splitlines() if not x.startswith(("Loading ", "Computed ", "Semantic ", "Parsing ")))
        open(os.path.join(self.work, name + ".log"), "w").write(out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.last_states = dist
        if "No error has been found" in out and r.returncode == 0:
            return True, out
        if re.search(r"Error: (Invariant|Action property|Temporal properties|Property|The invariant|Deadlock)", out) or "is violated" in out:
            return False, out
        if strict and re.search(r"State \d+:", out):
            # the recorded values do not even have the form the specification gives them
            return False, out
        raise ToolError("TLC failed on %s:\n%s" % (module, "\n".join(out.splitlines()[-40:])))

    def model_check(self, module, cfg, env=None, **kw):
        """A check of the specification itself: it does not depend on the implementation."""
        ok, out = self.tlc(module, cfg, env, **kw)
        if not ok:
            raise ToolError("the specification %s violates its own properties:\n%s" % (module, out[-3000:]))
        return out

    def validate(self, module, hists, cfg, env=None, label=None):
        """Validate recorded histories with the trace specification `module`."""
        # (in portions: TLC's queue must not spill to disk, the override's numbers cannot be written there)
        out = ""
        for i in range(0, len(hists), 5000):
            out = self.validate_some(module, hists[i:i + 5000], cfg, env, label)
        return out

    def validate_some(self, module, hists, cfg, env, label):
        f = os.path.join(self.work, "%s_%d.ndjson" % (module, len(os.listdir(self.work))))
        with open(f, "w") as fh:
            for x in hists:
                fh.write(json.dumps(x) + "\n")
        ok, out = self.tlc(module, cfg, dict(env or {}, TRACE=f), strict=True)
        if not ok:
            # the last state of the error trace names the history and the position
            hs = re.findall(r"/?\\?\s*h = (\d+)", out)
            ls = re.findall(r"/\\ l = (\d+)", out)
            bad = re.findall(r'/\\ bad = (.*)', out)
            i = int(hs[-1]) - 1 if hs else None
            inv = re.search(r"Invariant (\w+) is violated", out)
            msg = "%s: %s at history %s position %s %s" % (
                module, inv.group(1) if inv else "not accepted", i, ls[-1] if ls else "?", bad[-1] if bad else "")
            raise Violation(msg, self.replay(hists[i] if i is not None else None, msg, out))
        self.cov["traces_validated_against_impl"] += len(hists)
        self.detail[label or module] = self.detail.get(label or module, 0) + len(hists)
        for x in hists[:: max(1, len(hists) // 2)][:2]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(json.dumps(x)[:600])
        return out

    # ---- results ---------------------------------------------------------
    def replay(self, obj, what, out=""):
        p = os.path.join(self.replays, "%s-%s-%d.json" % (self.prop, self.tier, int(time.time() * 1000) % 10**9))
        json.dump({"property": self.prop, "what": what, "history": obj,
                   "how": "echo the history into the harness binary (cargo run in /verif/harness) and validate the output with the named trace specification",
                   "tlc": out[-6000:]}, open(p, "w"), indent=1)
        return p

    def evidence(self, level, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["by_part"] = self.detail
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                   "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
                   "assumptions": self.assumptions, "violations": len(violations), "violation_texts": violations},
                  open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)


def known_findings(prop):
    """Entries of KNOWN_FINDINGS.txt: 'known: property=<id> key=<key> <text>'."""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(registry, argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn, level = registry[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.build()
        fn(ctx)
    except Violation as v:
        ctx.evidence(level, [v.what])
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except ToolError as e:
        print("TOOL-ERROR " + str(e), flush=True)
        return 2
    ctx.evidence(level, [])
    ctx.log("held on everything explored: %s" % json.dumps(ctx.detail))
    shutil.rmtree(ctx.work, ignore_errors=True)
    return 0
