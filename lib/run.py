"""Runs the stages of a check and writes its evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)   # where evidence and replays go
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself failed."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.details, self.known = [], [], {}, []
        self.bins = {}

    def size(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ---- building -------------------------------------------------------
    def env(self):
        e = dict(os.environ)
        e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", LC_ALL="C.UTF-8")
        e.setdefault("HOME", "/root")
        e.setdefault("GOPATH", "/root/go")
        e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        path = e.get("PATH", "/usr/bin:/bin")
        for d in ("/usr/local/bin", "/usr/local/go/bin"):
            if d not in path.split(":"):
                path += ":" + d
        e["PATH"] = path
        return e

    def harness(self, race=False):
        if race in self.bins:
            return self.bins[race]
        src = os.path.join(self.dir, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                p = os.path.join(src, "go.mod")
                s = open(p).read().replace("=> /repo", "=> " + REPO)
                open(p, "w").write(s)
        out = os.path.join(self.dir, "harness-race" if race else "harness-bin")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=self.env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise Broken("the harness does not build:\n" + p.stdout + p.stderr)
        self.bins[race] = out
        return out

    def drive(self, args, out, race=False, timeout=600, extra_env=None):
        """Runs the harness; it writes the file out.  Returns (returncode, stderr)."""
        cmd = [self.harness(race)] + args[:1] + ["-corpus", os.path.join(VERIF, "corpus"), "-out", out] + args[1:]
        env = self.env()
        env.update(extra_env or {})
        env["GOMEMLIMIT"] = "6GiB"
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise Broken("the harness did not finish: " + " ".join(args))
        if p.returncode != 0 and not race:
            # the library brought the whole process down (a fatal error, stack overflow, log.Fatal ...)
            if p.returncode == 3 and "harness:" in p.stderr:
                raise Broken(p.stderr[-3000:])
            raise Violation("the process died: " + p.stderr[:400],
                            {"command": args, "returncode": p.returncode, "stderr": p.stderr[:20000]})
        return p.returncode, p.stderr

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=880, expect_violation=False, extra=()):
        """Runs TLC.  Returns dict(ok, states, distinct, out)."""
        meta = tempfile.mkdtemp(dir=self.dir)
        cfgp = os.path.join(meta, os.path.basename(module) + ".cfg")
        open(cfgp, "w").write(cfg)
        e = self.env()
        e.update(env or {})
        cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-Djava.io.tmpdir=" + meta,
               "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgp] + list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not finish: " + module)
        finally:
            shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        violated = re.search(r"Error: Invariant (\w+) is violated|Temporal properties were violated|Error: Action property|Error: Deadlock reached|is violated by the initial state", out)
        if not violated and p.returncode != 0:
            raise Broken("TLC failed on %s:\n%s" % (module, tail(out, 4000)))
        if not violated and "No error has been found" not in out:
            raise Broken("TLC ended strangely on %s:\n%s" % (module, tail(out, 4000)))
        self.states += dist
        self.transitions += gen
        return {"ok": not violated, "generated": gen, "distinct": dist, "out": out}

    def last_state(self, out):
        """The variables of the last state of a counterexample, as text."""
        i = out.rfind("\nState ")
        block = out[i:] if i >= 0 else out
        vals = {}
        for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ |\n\n|\Z)", block, re.S | re.M):
            vals[m.group(1)] = m.group(2).strip()
        if not vals:
            m = re.search(r"violated by the initial state:\n(.*?)\n\n", out, re.S)
            if m:
                for l in re.finditer(r"^(?:/\\ )?(\w+) = (.*?)(?=^(?:/\\ )?\w+ = |\Z)", m.group(1), re.S | re.M):
                    vals[l.group(1)] = l.group(2).strip()
        if not vals:  # a single variable
            m = re.search(r"^(\w+) = (.*?)(?=\n\n|\Z)", block[1:].split("\n", 1)[-1], re.S | re.M)
            if m:
                vals[m.group(1)] = m.group(2).strip()
        return vals

    def path(self, name):
        return os.path.join(self.dir, name)

    def count(self, name, n):
        self.details[name] = self.details.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)


def tail(s, n):
    return s if len(s) <= n else "..." + s[-n:]


def write_replay(prop, what, replay):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p, "w") as f:
        json.dump({"property": prop, "what": what, "replay": replay}, f, indent=1, ensure_ascii=False)
    return p


def main(argv):
    import checks
    if len(argv) != 1 or argv[0] not in checks.CHECKS:
        print("usage: check ID   with ID one of " + " ".join(sorted(checks.CHECKS)), file=sys.stderr)
        return 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    code, violations = 0, 0
    try:
        try:
            for name, stage in checks.CHECKS[prop]:
                if os.environ.get("STAGE", "") not in name:  # for development
                    continue
                s = time.time()
                stage(ctx)
                ctx.notes.append("%s: %.1f s" % (name, time.time() - s))
        except Violation as v:
            p = write_replay(prop, v.what, v.replay)
            print("%s: %s" % (prop, v.what))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            code, violations = 1, 1
        except Broken as b:
            print("%s: the check failed: %s" % (prop, b), file=sys.stderr)
            return 2
        except Exception:
            traceback.print_exc()
            return 2
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"]}
        cov.update(ctx.details)
        cov["stages"] = ctx.notes
        ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
              "level": "model_checking", "coverage": cov, "assumptions": checks.assumptions(prop),
              "wall_s": round(time.time() - t0, 1), "violations": violations}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        return code
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
