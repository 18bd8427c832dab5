"""Common machinery of the checks: build the harness from /repo, run TLC (exhaustive runs, scenario
generation, trace validation), collect evidence and verdicts.  Standard library only."""
import atexit, concurrent.futures, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.environ.get("VERIF_HARNESS", os.path.join(VERIF, "harness"))
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VPKG = "zzverif"


class ToolError(Exception):
    pass


def go_env():
    """The environment of /opt/vp/env.sh (the pinned toolchain), read rather than copied."""
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    env["GOFLAGS"] = "-mod=readonly"
    return env


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.violations = []      # (kind, text, replay payload)
        self.known_hits = []
        self.errors = []          # parts of the check that gave no answer; they only matter without violations
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov["specs"] = {}
        self.assumptions = []
        self.events = {}
        self.lock = threading.Lock()
        self.known = []
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith("#"):
                    k = json.loads(line)
                    if k.get("status") == "known" and k.get("property") == pid:
                        self.known.append(k)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build(self):
        """Builds the harness (package main, laid over /repo/zzverif by -overlay) against /repo's working tree."""
        repl = {}
        for f in sorted(glob.glob(os.path.join(HARNESS, "*.go"))):
            repl[os.path.join(REPO, VPKG, os.path.basename(f))] = f
        ov = os.path.join(self.tmp, "overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        self.bin = os.path.join(self.tmp, "vh")
        r = subprocess.run(["go", "build", "-tags", "verif", "-overlay", ov, "-o", self.bin, "./" + VPKG], cwd=REPO,
                           env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stdout[-4000:])
        self.log("harness built")

    # ---------------------------------------------------------------- harness
    def harness(self, mode, scen, timeout=300, procs=None, name=None, env=None):
        """Runs scenarios (a list) on the real code, split over `procs` processes.  Returns traces (list of
        dicts with at least name, ev).  A crash of the process inside the code under test is a violation."""
        procs = procs or min(8, max(1, len(scen) // 4))
        chunks = [scen[i::procs] for i in range(procs)]
        chunks = [c for c in chunks if c]
        res = []

        def run(i, c):
            base = os.path.join(self.tmp, "%s-%s-%d" % (name or mode, mode, i))
            json.dump(c, open(base + ".in", "w"))
            e = go_env()
            e["VERIF_SEED"] = str(self.seed)
            e["GOTRACEBACK"] = "all"
            e["TMPDIR"] = self.tmp
            if env:
                e.update(env)
            cmd = [self.bin, mode, base + ".in", base + ".out", str(self.seed * 1009 + i)]
            with open(base + ".log", "wb") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=self.tmp,
                                     start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    os.kill(p.pid, signal.SIGQUIT)
                    try:
                        p.wait(timeout=10)
                    except subprocess.TimeoutExpired:
                        pass
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = -999
            traces = []
            if os.path.exists(base + ".out"):
                for line in open(base + ".out"):
                    try:
                        traces.append(json.loads(line))
                    except ValueError:
                        pass
            log = open(base + ".log", errors="replace").read()
            return i, rc, traces, log, c

        with concurrent.futures.ThreadPoolExecutor(len(chunks)) as ex:
            outs = list(ex.map(lambda t: run(*t), list(enumerate(chunks))))
        for i, rc, traces, log, c in outs:
            res.extend(traces)
            if rc == 0:
                continue
            where = crash_in_dheart(log)
            done = {t.get("name") for t in traces}
            pending = [s for s in c if s.get("name") not in done]
            if where:
                self.violate("crash", "process crashed in %s: %s" % (mode, where),
                             dict(mode=mode, scenarios=pending[:3], log=log[-12000:]))
            elif rc == -999:
                # The harness has watchdogs of its own around every call into the code under test, so that
                # an overall time-out says nothing about the code.
                self.errors.append("harness %s timed out\n%s" % (mode, log[-6000:]))
            else:
                self.errors.append("harness %s failed rc=%s\n%s" % (mode, rc, log[-6000:]))
        for t in res:
            if t.get("fail"):
                self.errors.append("harness scenario failed: %s: %s" % (t.get("name"), t["fail"]))
        self.log("harness %s: %d traces" % (name or mode, len(res)))
        return res

    # ---------------------------------------------------------------- TLC
    def _tlc(self, spec, cfg, workers=4, args=(), env=None, timeout=600, dfs=False, heap="3g", cfgtext=None):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in glob.glob(os.path.join(SPECS, "*.tla")):
            shutil.copy(f, d)
        cfgfile = os.path.join(d, "run.cfg")
        if cfgtext is None:
            cfgtext = open(os.path.join(SPECS, cfg)).read()
        open(cfgfile, "w").write(cfgtext)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
                "-noGenerateSpecTE", "-config", cfgfile] + list(args) + [os.path.join(d, spec + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = -999, (x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return rc, out, d

    @staticmethod
    def _stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, s = m[-1]
        return int(g.replace(",", "")), int(s.replace(",", ""))

    def model_check(self, spec, cfg, timeout=600, workers=4, must_cover=(), **kw):
        """Exhaustive run of the design.  An invariant that fails here is a fault of the specification, hence a
        tool error: nothing was observed about the code."""
        t = time.time()
        rc, out, _ = self._tlc(spec, cfg, workers=workers, args=["-coverage", "1"] if must_cover else [], timeout=timeout, **kw)
        if rc != 0:
            raise ToolError("model check of %s/%s failed rc=%s\n%s" % (spec, cfg, rc, out[-5000:]))
        g, s = self._stats(out)
        uncovered = []
        for a in must_cover:
            m = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not m or all(int(x[1]) == 0 for x in m):
                uncovered.append(a)
        if uncovered:
            raise ToolError("vacuous model %s: actions never taken: %s" % (spec, uncovered))
        with self.lock:
            self.cov["states"] += s
            self.cov["transitions"] += g
            self.cov["specs"][cfg] = dict(distinct_states=s, states_generated=g, wall_s=round(time.time() - t, 1))
        self.log("model check %s/%s: %d states, %d transitions, %.1fs" % (spec, cfg, s, g, time.time() - t))
        return out

    def generate(self, spec, cfg, timeout=600, workers=4, simulate=None, depth=None, **kw):
        """Runs the specification as a scenario generator: it prints histories (JSON) with PrintT(ToJson(h))."""
        t = time.time()
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 30), "-seed", str(self.seed * 7919 + 13)]
            workers = 1
        rc, out, _ = self._tlc(spec, cfg, workers=workers, args=args, timeout=timeout, **kw)
        hs = []
        seen = set()
        for line in out.splitlines():
            if line.startswith('"[') or line.startswith('"{'):
                if line not in seen:
                    seen.add(line)
                    hs.append(json.loads(json.loads(line)))
        if rc != 0 or not hs:
            raise ToolError("scenario generation %s/%s failed rc=%s\n%s" % (spec, cfg, rc, out[-5000:]))
        hs.sort(key=lambda h: json.dumps(h))
        if simulate and len(hs) > simulate:
            # the simulator prints every successor of the last but one state: keep a sample
            hs = random.Random(self.seed * 31 + len(hs)).sample(hs, simulate)
        g, s = self._stats(out)
        with self.lock:
            self.cov["states"] += s
            self.cov["transitions"] += g
            self.cov["specs"][cfg + " (generator)"] = dict(distinct_states=s, states_generated=g, histories=len(hs),
                                                          wall_s=round(time.time() - t, 1))
        self.log("generated %d histories from %s/%s in %.1fs" % (len(hs), spec, cfg, time.time() - t))
        return hs

    def validate(self, spec, traces, cfg=None, timeout=600, chunks=8, kind=None, describe=None, dfs=False, consts=None):
        """Validates traces recorded from the real code against the trace specification `spec`.  A trace is accepted
        when some behaviour of the specification explains every one of its events.  Rejections are violations."""
        if not traces:
            if not self.violations:
                self.errors.append("no traces for " + spec)
            return []
        t = time.time()
        n = min(chunks, max(1, len(traces) // 20), len(traces))
        parts = [list(range(i, len(traces), n)) for i in range(n)]
        cfgtext = "INIT TraceInit\nNEXT TraceNext\nCONSTRAINT Track\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Post\n"
        if consts:
            cfgtext += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())

        def one(idx):
            tf = tempfile.mktemp(suffix=".json", dir=self.tmp)
            of = tf + ".out"
            json.dump([dict(ev=traces[i]["ev"], cfg=traces[i].get("cfg", {"x": 0})) for i in idx], open(tf, "w"))
            rc, out, _ = self._tlc(spec, cfg, workers=1, env=dict(TRACE_FILE=tf, OUT_FILE=of), timeout=timeout,
                                   dfs=dfs, cfgtext=None if cfg else cfgtext)
            if rc != 0 or not os.path.exists(of):
                raise ToolError("trace validation %s failed rc=%s\n%s" % (spec, rc, out[-5000:]))
            got = json.load(open(of))
            os.unlink(tf)
            os.unlink(of)
            return idx, got, self._stats(out)

        if os.environ.get("VERIF_KEEP"):
            json.dump(traces, open(os.environ["VERIF_KEEP"] + spec + ".json", "w"))
        rejected = []
        st = [0, 0]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            for idx, got, (g, s) in ex.map(one, parts):
                st[0] += g
                st[1] += s
                for j, i in enumerate(idx):
                    if got[j] < len(traces[i]["ev"]):
                        rejected.append((i, got[j]))
        nev = 0
        for tr in traces:
            nev += len(tr["ev"])
            for e in tr["ev"]:
                self.events[e.get("e", "?")] = self.events.get(e.get("e", "?"), 0) + 1
        with self.lock:
            self.cov["states"] += st[1]
            self.cov["transitions"] += st[0]
            self.cov["traces_validated_against_impl"] += len(traces)
            self.cov["events_validated"] = self.cov.get("events_validated", 0) + nev
            for tr in traces[:1]:
                if len(self.cov["samples"]) < 6:
                    self.cov["samples"].append(dict(spec=spec, name=tr.get("name"), events=tr["ev"][:12]))
        self.log("validated %d traces (%d events) against %s: %d rejected, %.1fs" %
                 (len(traces), nev, spec, len(rejected), time.time() - t))
        for i, m in sorted(rejected):
            tr = traces[i]
            ev = tr["ev"]
            bad = ev[m] if m < len(ev) else None
            txt = "%s: trace %s rejected at event %d/%d: %s" % (spec, tr.get("name"), m + 1, len(ev), json.dumps(bad))
            self.violate(kind or spec, txt, dict(spec=spec, name=tr.get("name"), matched=m, cfg=tr.get("cfg"),
                                                 scenario=tr.get("scen"), events=ev[:m + 3], notes=tr.get("notes")),
                         bad=bad, trace=tr, at=m)
        return rejected

    # ---------------------------------------------------------------- verdict
    def violate(self, kind, text, payload, bad=None, trace=None, at=None):
        for k in self.known:
            if match_known(k.get("match", {}), kind, bad, trace, at):
                self.known_hits.append((k, text))
                return
        self.violations.append((kind, text, payload))

    def finish(self):
        wall = time.time() - self.t0
        self.cov["event_counts"] = dict(sorted(self.events.items()))
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(path + ".tmp", "w"), indent=1)
        os.replace(path + ".tmp", path)
        seen = set()
        for k, text in self.known_hits:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for n, (kind, text, payload) in enumerate(self.violations[:10]):
            rp = os.path.join(self.out, "violation-%d.json" % n)
            json.dump(dict(property=self.pid, kind=kind, text=text, seed=self.seed, tier=self.tier, **payload),
                      open(rp, "w"), indent=1)
            print("  " + text[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        self.log("%s %s: %d violations, %.1fs" % (self.pid, self.tier, len(self.violations), wall))
        return 1 if self.violations else 0


def match_known(m, kind, bad, trace, at):
    if not m:
        return False
    if "kind" in m and m["kind"] != kind:
        return False
    for k, v in m.get("event", {}).items():
        if not bad or bad.get(k) != v:
            return False
    for k, v in m.get("cfg", {}).items():
        if not trace or (trace.get("cfg") or {}).get(k) != v:
            return False
    return True


def crash_in_dheart(log):
    """If the process died by a panic or a fatal runtime error whose goroutine runs dheart code, returns a short
    description; None otherwise (then it is the harness's own fault)."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: .*goroutine stack exceeds.*)$", log, re.M)
    if not m:
        return None
    head = m.group(1)[:200]
    rest = log[m.end():]
    g = re.search(r"^goroutine \d+ [^\n]*\n(.*?)(?:\n\n|\Z)", rest, re.M | re.S)
    stack = g.group(1) if g else ""
    for line in stack.splitlines():
        if line.startswith("\t") or line.startswith(" ") or line.startswith("created by"):
            continue
        if line.startswith("panic(") or line.startswith("runtime.") or line.startswith("main.(*crashGuard)"):
            continue
        if line.startswith("main."):
            return None
        if "sisu-network/dheart/" in line:
            return head + " at " + line.split("(0x")[0].strip()
    if "created by github.com/sisu-network/dheart/" in stack:
        return head
    return None


def run_check(pid, fn, level="model_checking"):
    ctx = Ctx(pid, level)
    try:
        fn(ctx)
        if ctx.errors and not ctx.violations:
            raise ToolError(ctx.errors[0])
        rc = ctx.finish()
    except ToolError as x:
        # A violation that was already observed on the real code stands.
        print("TOOL-ERROR: %s" % x)
        if ctx.violations:
            rc = ctx.finish()
        else:
            rc = 2
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    return rc


def parallel(*fns):
    with concurrent.futures.ThreadPoolExecutor(len(fns)) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]
