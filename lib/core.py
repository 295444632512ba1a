"""Shared machinery: building the harness from /repo, running TLC, running cases, verdicts and evidence."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Infra(Exception):
    """The machinery itself could not run: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []      # dicts with at least "what"; "sig" identifies it among the known findings
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_compared": 0, "samples": []}
        self.notes = []
        self.level = ""
        self.assumptions = []
        self._bin = {}

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, what, **kw):
        self.violations.append(dict(what=what, **kw))

    def scratch(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sample(self, kind, c, ev):
        t = json.dumps({"kind": kind, "case": c, "events": ev[:6]})
        self.cov["samples"].append(t if len(t) < 3000 else t[:3000] + "...")

    # ---- building
    def build(self, race=False):
        if race in self._bin:
            return self._bin[race]
        env = goenv()
        out = os.path.join(self.dir, "harness-race.bin" if race else "harness.bin")
        cmd = ["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", out]
        if race:
            cmd.append("-race")
        # the module file is copied so that a build never touches the committed one
        mod = self.scratch("mod")
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HARNESS, f), os.path.join(mod, f))
        cmd += ["-modfile", os.path.join(mod, "go.mod"), "."]
        p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise Infra("harness does not build:\n" + p.stdout + p.stderr)
        self._bin[race] = out
        return out

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, args=(), timeout=600, workers=1, heap="3g", ok=(0,)):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
               "-workers", str(workers), "-noGenerateSpecTE", *map(str, args), "-config", (cfg or module) + ".cfg", module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC on %s exceeded %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if ok is not None and p.returncode not in ok:
            raise Infra("TLC on %s failed (%d):\n%s\n%s" % (module, p.returncode, p.stdout[-4000:], p.stderr[-2000:]))
        return p.returncode, p.stdout

    def count_states(self, out):
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states", out)
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
            self.cov["transitions"] += g
            self.cov["states"] += d
            return g, d
        return 0, 0

    def printed(self, out, tag):
        """JSON values printed by PrintT(tag \\o ToJson(..))."""
        res = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                s = json.loads(line)          # the TLA+ string
                res.append(json.loads(s[len(tag) + 1:]))
        return res

    def parallel(self, fn, items, n=NPROC):
        with cf.ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    # ---- cases on the real code
    def run_case(self, kind, case, timeout=90, race=False):
        """Runs one case in its own process. Returns (events, error): error is None when the case finished."""
        d = tempfile.mkdtemp(prefix="case-", dir=self.dir)
        try:
            cf_, of = os.path.join(d, "case.json"), os.path.join(d, "out.ndjson")
            with open(cf_, "w") as f:
                json.dump(dict(case, Kind=kind), f)
            env = dict(goenv(), VERIF_CASE=cf_, VERIF_OUT=of, VERIF_PKI=os.path.join(HARNESS, "testdata/pki"), GOTRACEBACK="all", TMPDIR=d)
            binary = self.build(race)
            p = subprocess.Popen([binary, "-test.run", "^TestCase$", "-test.timeout", "0"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            hung = False
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                p.send_signal(signal.SIGQUIT)
                try:
                    out, _ = p.communicate(timeout=20)
                except subprocess.TimeoutExpired:
                    p.kill()
                    out, _ = p.communicate()
            ev = []
            if os.path.exists(of):
                for line in open(of):
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass
            if ev and ev[-1].get("done"):
                return ev[:-1], None
            return ev, {"hung": hung, "rc": p.returncode, "out": out if len(out) < 400000 else out[:300000] + "\n...\n" + out[-100000:]}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_cases(self, kind, cases, timeout=90, race=False):
        self.build(race)

        failed = []

        def one(c):
            if len(failed) >= 4:               # the verdict is clear: do not wait for more hangs and crashes
                return None, None
            ev, err = self.run_case(kind, c, timeout, race)
            if err and err["hung"] and len(failed) < 4:            # confirm: a loaded machine is not a deadlock
                ev, err = self.run_case(kind, c, timeout * 2, race)
            if err:
                failed.append(c)
            elif len(self.cov["samples"]) < 3:
                self.sample(kind, c, ev)
            return ev, err
        return self.parallel(one, cases)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    return e


def crash_summary(err):
    """A stable one-line description of a crash or hang of the real code."""
    out = err["out"]
    if err["hung"]:
        locks = re.findall(r"goroutine \d+ \[(sync\.[^\]]*|semacquire[^\]]*)\]:\n(?:.*\n){0,6}?(github\.com/awcullen/\S+?)\(", out)
        where = sorted({f for _, f in locks})
        return "the server or client hangs; goroutines blocked on locks in: " + (", ".join(where) or "?")
    m = re.search(r"^(panic: .*|fatal error: .*)$", out, re.M)
    msg = m.group(1) if m else "process ended with %s" % err["rc"]
    where = re.findall(r"^(github\.com/awcullen/opcua/\S+?)\(", out[m.start():] if m else out, re.M)
    return msg[:300] + (" in " + where[0] if where else "")


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def matches(k, v):
    return v.get("sig") is not None and k.get("sig") == v["sig"]


def finish(ctx):
    """Writes evidence, prints the verdict and returns the exit status."""
    known = load_known(ctx.prop)
    fresh, seen = [], []
    for v in ctx.violations:
        k = next((k for k in known if matches(k, v)), None)
        (seen.append(k) if k else fresh.append(v))
    for k in {json.dumps(k, sort_keys=True): k for k in seen}.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    lines = []
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(ev, "replay", "%s-%d.json" % (ctx.prop, i + 1))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        lines.append((path, v))
    cov = dict(ctx.cov)
    if ctx.notes:
        cov["notes"] = ctx.notes
    doc = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": cov,
           "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(fresh)}
    with open(os.path.join(ev, ctx.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for path, v in lines:
        print("  " + v["what"][:1500])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    if not fresh:
        print("OK property=%s coverage=%s" % (ctx.prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})[:600]))
    return 1 if fresh else 0
