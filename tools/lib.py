"""Shared machinery of the checks: build, TLC runs, harness runs, evidence, verdicts."""
import fcntl, hashlib, json, os, random, shutil, subprocess, sys, time, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DDVERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPECS = os.path.join(VERIF, "specs")
OUT = os.path.join(VERIF, "out")
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS"))}
ENV.update(RUSTUP_TOOLCHAIN="1.94", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))


class ToolError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """Builds the harness against the current tree of /repo. A content hash (not mtimes) decides what is stale."""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".ddverif.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".ddverif.hash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            for f in glob.glob(os.path.join(target, "debug", ".fingerprint", "datafusion-distributed-*")):
                shutil.rmtree(f, ignore_errors=True)
        t = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(h)
        return time.time() - t


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.out = os.path.join(OUT, pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.violations, self.known_hits = [], {}
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == pid]
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.assumptions = []
        self.rng = random.Random(f"{pid}-{self.seed}")

    def quick(self):
        return self.tier != "thorough"

    def pick(self, q, t):
        return q if self.quick() else t

    def left(self):
        """seconds left of this run's own time budget"""
        return self.pick(float(os.environ.get("DDVERIF_BUDGET", "240")), 3000.0) - (time.time() - self.t0)

    def path(self, *a):
        return os.path.join(self.out, *a)

    def note(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, cfg, workers=4, simulate=None, depth=None, seed=None, timeout=600, env=None, name=None, mem="3g", ok_codes=(0,), dfid=None):
        """Runs TLC and returns its output; raises on anything but success."""
        name = name or f"{spec}-{cfg if isinstance(cfg, str) else cfg[0]}"
        meta = self.path("tlc-" + name)
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        for f in glob.glob(os.path.join(SPECS, "*.tla")) + glob.glob(os.path.join(SPECS, "*.cfg")):
            shutil.copy(f, meta)
        if isinstance(cfg, tuple):  # (file name, text)
            open(os.path.join(meta, cfg[0]), "w").write(cfg[1])
            cfg = cfg[0]
        cmd = ["java", f"-Xmx{mem}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp",
               TLC_JAR + ":" + ":".join(glob.glob(os.path.join(os.path.dirname(TLC_JAR), "*ommunity*.jar"))),
               "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(meta, "states"), "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100)]
        if seed is not None:
            cmd += ["-seed", str(seed), "-fp", "1"]
        cmd += [spec + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=meta, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {name}")
        open(os.path.join(meta, "tlc.out"), "w").write(r.stdout + r.stderr)
        if r.returncode not in ok_codes:
            raise ToolError(f"TLC failed ({r.returncode}) on {name}:\n" + r.stdout[-3000:] + r.stderr[-1500:])
        r.states = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
            self.cov["transitions"] += g
            self.cov["states"] += d
            r.states = d
        m = re.findall(r"(?:number of states generated|states checked)[: ]+([\d,]+)", r.stdout)
        if simulate:
            m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", r.stdout)
            m2 = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
            n = int((m2 or [x[0] for x in m] or ["0"])[-1].replace(",", ""))
            self.cov["transitions"] += n
            self.cov["states"] += n
        return r

    def model(self, spec, cfg, **kw):
        """Exhaustive check of the design: must hold, otherwise the specification itself is wrong."""
        kw.setdefault("workers", 8)
        r = self.tlc(spec, cfg, **kw)
        if "No error has been found" not in r.stdout:
            raise ToolError(f"TLC did not complete {spec}/{cfg}\n{r.stdout[-2000:]}")
        self.note("models_checked")
        self.log(f"model {spec}/{cfg if isinstance(cfg, str) else cfg[0]}: {r.states} states")
        return r

    def generate(self, spec, cfg, num, depth, tag="CASE", procs=4, **kw):
        """Behaviours drawn from the specification: every line `"<tag> json"` printed by TLC."""
        def one(i):
            return self.tlc(spec, cfg, workers=1, simulate=max(1, num // procs), depth=depth, seed=self.seed * 1000 + i, name=f"gen-{spec}-{cfg if isinstance(cfg, str) else cfg[0]}-{i}", **kw)
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        return [x for r in rs for x in tagged(r.stdout, tag)]

    def walks(self, *a, **kw):
        """Like generate, for modules that emit histories of a fixed length: TLC prints every successor of a walk's last
        state; one of them is kept."""
        out = {}
        for b in self.generate(*a, **kw):
            out.setdefault(json.dumps(b["steps"][:-1]), []).append(b)
        return [self.rng.choice(v) for v in out.values()]

    def accept(self, spec, traces, procs=4, cfg=None, timeout=900):
        """Evaluates recorded histories against a trace module. Returns {id: verdict}, a verdict for every trace."""
        if not traces:
            return {}
        procs = min(procs, len(traces))
        def one(i):
            f = self.path(f"traces-{spec}-{i}.ndjson")
            with open(f, "w") as o:
                for t in traces[i::procs]:
                    o.write(json.dumps(t) + "\n")
            return self.tlc(spec, cfg or spec + ".cfg", workers=1, env={"TRACES": f}, name=f"acc-{spec}-{i}", timeout=timeout, mem="4g")
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        out = {v["id"]: v for r in rs for v in tagged(r.stdout, "VERDICT")}
        lost = [t["id"] for t in traces if t["id"] not in out]
        if lost:
            raise ToolError(f"{spec}: no verdict for {len(lost)} traces, e.g. {lost[:3]}")
        self.note("traces_checked_by_tlc", len(traces))
        return out

    # ------------------------------------------------------------ harness
    def run_cases(self, cases, threads=8, secs=60, name="cases"):
        """Runs the cases on the real code. Returns {id: result}. A case that gets stuck or kills the process is a result."""
        res, todo, rnd = {}, list(cases), 0
        while todo:
            ci, co = self.path(f"{name}-{rnd}.in"), self.path(f"{name}-{rnd}.out")
            with open(ci, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            try:
                r = subprocess.run([os.path.join(HARNESS, "target", "debug", "ddverif"), ci, co, str(threads), str(secs)],
                                   capture_output=True, text=True, timeout=1800, env=dict(os.environ, RUST_BACKTRACE="0"))
            except subprocess.TimeoutExpired:
                raise ToolError("harness timed out")
            got = {}
            for l in open(co, errors="replace"):
                try:
                    v = json.loads(l)
                    got[v["id"]] = v
                except ValueError:
                    pass
            res.update(got)
            rest = [c for c in todo if c["id"] not in got]
            if r.returncode not in (0, 3):
                # the process died (abort, stack overflow): isolate the culprit by halving the rest
                if len(rest) == 1 or threads == 1:
                    bad = rest[0]
                    res[bad["id"]] = {"id": bad["id"], "died": r.returncode, "stderr": r.stderr[-600:]}
                    rest = rest[1:]
                threads = 1
            elif r.returncode == 0 and rest:
                # a worker thread of the harness itself went down with its case
                if len(rest) == 1 or threads == 1:
                    res[rest[0]["id"]] = {"id": rest[0]["id"], "died": "thread", "stderr": r.stderr[-600:]}
                    rest = rest[1:]
                threads = 1
            if r.returncode == 3 and rnd >= 4:
                # the code under test runs for ever, again and again: that is the verdict
                for c in cases:
                    if res.get(c["id"], {}).get("stuck"):
                        self.violate("the query never comes to an end", c, res[c["id"]], key="stuck")
                raise Enough()
            todo, rnd = rest, rnd + 1
            if rnd > 60:
                raise ToolError("too many crashing cases")
        for v in res.values():
            if "harness_error" in v:
                raise ToolError(v["harness_error"])
        self.note("evaluations", len(cases))
        return res

    # ------------------------------------------------------------ verdicts
    def violate(self, what, case, result=None, key=None):
        """A violation of the property on a concrete case. Listed findings (matched by `key`) are announced, not raised."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                self.known_hits.setdefault(k["key"], (k, 0))
                self.known_hits[k["key"]] = (k, self.known_hits[k["key"]][1] + 1)
                return
        n = len(self.violations)
        p = self.path(f"violation-{n}.json")
        if n < 40:
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "case": case, "result": result}, f)
        self.violations.append((what, p))

    def finish(self):
        for key, (k, n) in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} ({n} cases)")
        self.cov["known_finding_cases"] = sum(n for _, n in self.known_hits.values())
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        self.cov["samples"] = shrink(self.cov["samples"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, p in self.violations[:10]:
            print(f"VIOLATION property={self.pid} replay={p}  {what[:300]}")
        self.log(f"done: {len(self.violations)} violations, coverage " + json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        # keep /verif/out small
        for d in glob.glob(self.path("tlc-*")):
            shutil.rmtree(d, ignore_errors=True)
        if not self.violations:
            for f in glob.glob(self.path("*.in")) + glob.glob(self.path("*.out")) + glob.glob(self.path("*.ndjson")):
                os.unlink(f)
        return 1 if self.violations else 0


def shrink(samples):
    out = []
    for s in samples[:6]:
        t = s if isinstance(s, str) else json.dumps(s)
        out.append(t[:3000])
    return out


def tagged(text, tag):
    """JSON values of the lines TLC printed as "TAG {...}" (a TLA+ string, so quotes are escaped)."""
    out = []
    pre = f'"{tag} '
    for l in text.splitlines():
        if l.startswith(pre) and l.endswith('"'):
            out.append(json.loads(l[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\")))
    return out


def ctup(v):
    """JSON value -> hashable"""
    if isinstance(v, list):
        return tuple(ctup(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, ctup(x)) for k, x in v.items()))
    return v


def bag(rows):
    c = {}
    for r in rows:
        k = ctup(r)
        c[k] = c.get(k, 0) + 1
    return c


class Enough(Exception):
    """Violations were found and there is no point in going on."""


def main(run, pid, level):
    ctx = None
    try:
        ctx = Ctx(pid, level)
        ctx.log(f"build {build():.1f}s")
        try:
            run(ctx)
        except Enough:
            pass
        sys.exit(ctx.finish())
    except ToolError as e:
        print(f"TOOL-ERROR property={pid}: {e}")
        if ctx and ctx.violations:
            sys.exit(ctx.finish())
        sys.exit(2)
