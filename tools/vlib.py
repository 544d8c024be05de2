"""Shared machinery of the checks: building the driver, running TLC, validating traces, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)

GOENV = dict(GOROOT="/opt/veriftools/go1.26.10", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GO111MODULE="on", CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", HOME="/root")


class CheckError(Exception):
    """The check itself failed: no verdict."""


def env_seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = env_seed()
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.violation = None
        self.partial = None
        self._bin = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- driver ----
    def driver(self):
        if self._bin is None:
            self._bin = build_driver(self.scratch, race=bool(os.environ.get("VERIF_RACE")))
            self.log("driver built from", REPO)
        return self._bin

    def run_driver(self, mode, scripts, workers=CPUS, hang_ms=30000, timeout=600, env=None, wrap=(), limit_ms=0):
        """Execute scripts on the real code; returns the list of traces (each a list of events), in script order."""
        b = self.driver()
        d = tempfile.mkdtemp(prefix="job-", dir=self.scratch)
        with open(d + "/in", "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        jobf = dict(mode=mode, **{"in": d + "/in"}, out=d + "/out", workers=workers, scratch=d + "/db", hang_ms=hang_ms, limit_ms=limit_ms)
        json.dump(jobf, open(d + "/job", "w"))
        e = dict(os.environ)
        e.update(VERIF_JOB=d + "/job", GODEBUG="asynctimerchan=0", GOMAXPROCS=str(CPUS))
        e.update(env or {})
        timeout = self.left(timeout)
        try:
            p = subprocess.run([*wrap, b, "-test.run", "^TestVerif$", "-test.timeout", "%ds" % (timeout + 60)], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise CheckError("driver timed out after %ds in mode %s\n%s" % (timeout, mode, str(x.output)[-2000:]))
        by = {}
        for w in range(workers):
            fn = d + "/out.%d" % w
            if os.path.exists(fn):
                with open(fn) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            continue
                        ev = json.loads(line)
                        by.setdefault(ev["t"], []).append(ev)
        if os.path.exists(d + "/out.partial"):
            self.partial = "scripts were abandoned in mode " + mode
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode != 0:
            raise DriverDied(p.returncode, p.stdout, by)
        return [by.get(s["id"], []) for s in scripts]

    def left(self, timeout):
        """No step outlives the time there is for a quick check."""
        if self.thorough:
            return timeout
        return max(5, min(timeout, self.t0 + 840 - time.time()))

    # ---- TLC ----
    def model(self, module, cfg, workers=CPUS, timeout=600, what="", want_ops=False):
        """Exhaustive model checking of a bounded instance; a failure here is an error of the specification."""
        r = tlc(module, cfg, self.scratch, workers=workers, timeout=self.left(timeout))
        if not r.ok:
            raise CheckError("model checking of %s failed:\n%s" % (module, r.tail()))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(module=module, what=what, states=r.distinct, transitions=r.generated))
        self.log("TLC %s %s: %d states, %d transitions" % (module, what, r.distinct, r.generated))
        return r

    def validate(self, module, traces, consts, chunks=CPUS, timeout=600, workers=1, extra_cfg="", what="",
                 max_events=60000, spec="TraceSpec"):
        """Let TLC decide whether the recorded traces are behaviours of the specification."""
        traces = [t for t in traces if t]
        if not traces:
            return True
        total = sum(len(t) for t in traces)
        n = max(min(chunks, len(traces)), -(-total // max_events))
        n = min(n, len(traces))
        groups = [[] for _ in range(n)]
        sizes = [0] * n
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
        for i in order:
            k = sizes.index(min(sizes))
            groups[k].append(traces[i])
            sizes[k] += len(traces[i])
        d = tempfile.mkdtemp(prefix="tv-", dir=self.scratch)
        files = []
        for k, g in enumerate(groups):
            fn = "%s/trace%d.ndjson" % (d, k)
            with open(fn, "w") as f:
                for t in g:
                    for ev in t:
                        f.write(json.dumps(ev) + "\n")
            files.append(fn)
        cfg = consts + "\nSPECIFICATION " + spec + "\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + extra_cfg

        def one(k):
            try:
                return tlc(module, cfg, self.scratch, workers=workers, timeout=self.left(timeout), env={"TRACE": files[k]}, heap="3g")
            except CheckError as x:
                return x
        with ThreadPoolExecutor(max_workers=CPUS) as ex:
            res = list(ex.map(one, range(n)))
        ok, late = True, None
        for k, r in enumerate(res):
            if isinstance(r, CheckError):
                late = late or r
                continue
            self.states += r.distinct
            self.transitions += r.generated
            m = re.search(r'REJECTED", "(\d+)"', r.out)
            if r.ok:
                self.traces += len(groups[k])
                self.events += sizes[k]
                continue
            if not m:
                raise CheckError("trace validation with %s gave no verdict:\n%s" % (module, r.tail(6000)))
            ok = False
            flat = [ev for t in groups[k] for ev in t]
            line = int(m.group(1))
            self.reject(module, flat, line, r)
        if ok and late is not None:
            raise late
        self.log("TLC validated %s %d traces, %d events: %s" % (what or module, len(traces), total, "accepted" if ok else "REJECTED"))
        shutil.rmtree(d, ignore_errors=True)
        return ok

    def reject(self, module, flat, line, r):
        ev = flat[line - 1] if 0 < line <= len(flat) else None
        t = ev["t"] if ev else None
        start = line - 1
        while start > 0 and flat[start - 1]["t"] == t:
            start -= 1
        hist = flat[start:line]
        mism = mismatch_text(r.out, line)
        self.fail(dict(spec=module, trace=t, rejected_event=ev, mismatch=mism, history=hist))

    # ---- verdict ----
    def fail(self, info):
        if self.violation is None:
            self.violation = info

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self, exhaustive=None, extra=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, events_validated=self.events, models=self.models)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        cov.update(self.notes)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=0 if self.violation is None else 1)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.cleanup()
        if self.violation is not None:
            path = VERIF + "/evidence/%s.violation.json" % self.prop
            with open(path, "w") as f:
                json.dump(self.violation, f, indent=1)
            print("mismatch:", " ".join(str(self.violation.get("mismatch") or "").split())[:3000])
            print("event:", json.dumps(self.violation.get("rejected_event"))[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("held: %d states, %d transitions, %d traces validated" % (self.states, self.transitions, self.traces))
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class DriverDied(Exception):
    def __init__(self, rc, out, traces):
        super().__init__("driver exited with %s" % rc)
        self.rc, self.out, self.traces = rc, out, traces


def mismatch_text(out, line):
    """What was printed about the rejected event: branches the specification did not take speak of other lines too."""
    text = " ".join(out.split())
    parts = [p for p in re.split(r'(?=<< ?"MISMATCH")', text) if p.startswith("<<")]
    parts = [p for p in parts if re.match(r'<< ?"MISMATCH", "%d"' % line, p)] or parts[-1:]
    if not parts:
        return "the event is not one the specification allows here"
    return "\n".join(p[:p.find('<<"REJECTED')] if '<<"REJECTED' in p else p for p in parts)[:6000]


def load_known(prop):
    fn = VERIF + "/known-findings.json"
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)) if k.get("property") == prop]


def build_driver(scratch, race=False):
    d = scratch + "/build"
    os.makedirs(d, exist_ok=True)
    mod = open(REPO + "/go.mod").read()
    mod += "\nreplace github.com/rhansen/go-kairos => %s/harness/kairos\n" % VERIF
    open(d + "/go.mod", "w").write(mod)
    shutil.copy(REPO + "/go.sum", d + "/go.sum")
    ov = {}
    src = VERIF + "/harness/drv"
    for f in sorted(os.listdir(src)):
        if f.endswith("_test.go"):
            ov[REPO + "/zz_verif_" + f] = src + "/" + f
    json.dump({"Replace": ov}, open(d + "/overlay.json", "w"))
    out = d + "/driver"
    env = dict(os.environ)
    env.update(GOENV)
    env["PATH"] = GOENV["GOROOT"] + "/bin:" + env["PATH"]
    cmd = ["go", "test", "-modfile=" + d + "/go.mod", "-overlay=" + d + "/overlay.json", "-vet=off", "-tags=verif", "-c", "-o", out]
    if race:
        cmd.insert(2, "-race")
    p = subprocess.run(cmd + ["."], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("driver does not build:\n" + p.stdout[-4000:])
    return out


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = rc == 0 and "No error has been found" in out

    def tail(self, n=3500):
        keep = [l for l in self.out.splitlines() if not re.match(r"^(Semantic|Linting|Parsing|OPS )", l)]
        err = [i for i, l in enumerate(keep) if l.startswith("Error:")]
        head = "\n".join(keep[err[0]:err[0] + 12]) + "\n...\n" if err else ""
        return head + "\n".join(keep)[-n:]

    def ops(self):
        r = []
        for line in self.out.splitlines():
            if line.startswith('"OPS '):
                r.append(json.loads(json.loads(line)[4:]))
        return r


def tlc(module, cfg, scratch, workers=CPUS, timeout=600, env=None, heap="6g", args=()):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    fn = d + "/m.cfg"
    open(fn, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE",
           "-config", fn, *args, SPEC + "/" + module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC on %s timed out after %ds" % (module, timeout))
    shutil.rmtree(d, ignore_errors=True)
    return TLCResult(p.returncode, p.stdout)


def dedupe_prefixes(seqs):
    """Drop operation sequences that are prefixes of others; mark in each the length shared with the one before."""
    keyed = sorted([json.dumps(x, sort_keys=True) for x in s] for s in seqs)
    out = []
    for i, k in enumerate(keyed):
        if i + 1 < len(keyed) and keyed[i + 1][:len(k)] == k:
            continue
        out.append(k)
    res = []
    prev = []
    for k in out:
        common = 0
        while common < len(k) and common < len(prev) and k[common] == prev[common]:
            common += 1
        res.append(([json.loads(x) for x in k], common))
        prev = k
    return res


def main_wrapper(prop, fn):
    c = None
    try:
        c = Check(prop)
        try:
            fn(c)
            if c.partial and c.violation is None:
                raise CheckError(c.partial)
        except DriverDied as x:
            # The Go runtime ended the process while it executed the code under test.
            m = re.search(r"^(fatal error: .*|panic: .*)", x.out, re.M)
            if not m or "test timed out" in x.out or "waves-fork-detector" not in x.out:
                raise
            first = re.search(r"\n\t(%s/\S+):\d+" % re.escape(REPO), x.out[m.end():])
            if m.group(1).startswith("fatal error") and first and "/zz_verif_" in first.group(1):
                raise       # an error of the driver
            c.fail(dict(mismatch="the process died: " + m.group(1), output=x.out[-20000:],
                        rejected_event=None, history=[t[-3:] for t in list(x.traces.values())[-8:]]))
        return c.finish()
    except DriverDied as x:
        print("driver died: rc=%s\n%s" % (x.rc, x.out[-6000:]))
    except CheckError as x:
        print("ERROR:", x)
    except subprocess.TimeoutExpired as x:
        print("ERROR: timeout", x)
    finally:
        if c is not None:
            c.cleanup()
    return 2
