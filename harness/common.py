"""Shared machinery: TLC runner, evidence, findings, violations."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("MQ_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mqv_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out

    def lines(self, tag):
        res = []
        for ln in self.out.splitlines():
            k = ln.find('"' + tag + " ")
            if k >= 0:
                body = ln[k + 1:].rstrip()
                if body.endswith('"'):
                    body = body[:-1]
                body = body[len(tag) + 1:].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(body))
        return res


def tlc(module, cfg_text, env=None, workers=4, heap="3g", timeout=800, deadlock=False, extra=(), name=None):
    """Run TLC on spec/<module>.tla with the given .cfg text."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = os.path.join(d, (name or module) + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfg_text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s" % module) from ex
    r = TlcResult(p.stdout, p.returncode, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    return r


def tla(x):
    """Python value -> TLA+ expression (for .cfg-free constant modules)."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else "(0 - %d)" % -x
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(y) for y in sorted(x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    raise TypeError(x)


def run_mc(module, consts, invs, props=(), spec="Spec", workers=4, timeout=800, heap="4g", extra_defs="", constraint=None):
    """Exhaustive model checking with constants given as Python values (via a wrapper module)."""
    name = "MC_" + module
    body = "---- MODULE %s ----\nEXTENDS %s\n" % (name, module)
    cfg = "SPECIFICATION %s\n" % spec
    for k, v in consts.items():
        body += "const_%s == %s\n" % (k, v if isinstance(v, RawTla) else tla(v))
        cfg += "CONSTANT %s <- const_%s\n" % (k, k)
    body += extra_defs + "\n====\n"
    for i in invs:
        cfg += "INVARIANT %s\n" % i
    for p in props:
        cfg += "PROPERTY %s\n" % p
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    d = scratch()
    # the wrapper module is placed next to the copies of the specs by tlc()
    return _tlc_with(name, body, cfg, workers, timeout, heap)


_pool = None


def bg(fn, *a, **k):
    """Run fn in a background thread; .result() waits."""
    global _pool
    if _pool is None:
        import concurrent.futures
        _pool = concurrent.futures.ThreadPoolExecutor(8)
    return _pool.submit(fn, *a, **k)


class RawTla(str):
    pass


def tlaset(items):
    return RawTla("{" + ", ".join(tla(i) for i in items) + "}")


def _tlc_with(name, body, cfg_text, workers, timeout, heap, env=None):
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, name + ".tla"), "w") as fh:
        fh.write(body)
    cfg = os.path.join(d, name + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfg_text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock", "-config", cfg, name + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s" % name) from ex
    r = TlcResult(p.stdout, p.returncode, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    return r


# ---------------------------------------------------------------- reporting
class Report:
    """Collects what a check found and finishes with the right exit code."""
    last = None

    def __init__(self, pid, level="model_checking"):
        Report.last = self
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.violations = []      # (key, description, replay object)
        self.assumptions = []
        self.samples = []
        self.states = self.transitions = self.traces = 0
        self.notes = []

    def add_mc(self, r, what):
        if not r.ok:
            tail = "\n".join(r.out.splitlines()[-60:])
            raise CheckError("model checking of the specification failed (%s):\n%s" % (what, tail))
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("model_checking_runs", []).append(
            {"what": what, "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth,
             "wall_s": round(r.wall, 1)})

    def violate(self, key, text, replay):
        self.violations.append((key, text, replay))

    def finish(self):
        known = load_findings(self.pid)
        new, old = [], []
        for v in self.violations:
            (old if v[0] in known else new).append(v)
        seen = set()
        for k, text, _ in old:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, text))
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        c = self.cov
        c.setdefault("states", self.states)
        c.setdefault("transitions", self.transitions)
        c.setdefault("traces_validated_against_impl", self.traces)
        c.setdefault("samples", self.samples[:4] or ["none"])
        if self.notes:
            c["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            shown = set()
            for n, (k, text, rep) in enumerate(new):
                if k in shown or len(shown) >= 8:
                    continue
                shown.add(k)
                path = os.path.join(rd, "%s-%d.json" % (self.pid, len(shown)))
                with open(path, "w") as fh:
                    json.dump({"property": self.pid, "key": k, "what": text, "replay": rep}, fh, indent=1, default=str)
                print("  %s: %s" % (k, text))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def load_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    res = set()
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) key=(\S+)", ln)
            if m and m.group(1) == pid:
                res.add(m.group(2))
    return res


class Timeout(Exception):
    pass


class time_limit:
    """Ends a call of the code under test; once calls have failed to return (each a violation), later ones get less time."""
    expired = 0

    def __init__(self, sec):
        k = time_limit.expired
        self.sec = sec if k < 2 else min(sec, 3) if k < 12 else min(sec, 0.3)

    def __enter__(self):
        def h(sig, frm):
            time_limit.expired += 1
            raise Timeout("implementation did not return within %ss" % self.sec)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def rng(tag):
    return random.Random("%s|%s" % (SEED, tag))
