"""Shared machinery of the checks: verdicts, evidence, known findings, instrumented runs."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF
REPO = _build.REPO
NPROC = _build.NPROC

SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|SUMMARY: [A-Za-z]+Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*)")

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=8192",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C.UTF-8",
}


class Result(object):
    __slots__ = ("rc", "out", "err", "timeout", "cmd", "wall")

    @property
    def san(self):
        m = SAN_RE.search(self.err)
        return m.group(1).strip() if m else None

    @property
    def crashed(self):
        """died from a signal or from a sanitizer report (not: an ordinary error exit)"""
        return self.rc < 0 or self.rc == 97 or (self.san is not None)

    @property
    def diagnosed(self):
        """ended with an error message, either by an exit status or by an uncaught exception that says what is wrong"""
        return self.san is None and not self.timeout and (
            (self.rc > 0 and self.rc != 97) or (self.rc == -6 and "terminate called after throwing" in self.err and "what():" in self.err))

    def frames(self, n=4):
        """function names of the first stack of a sanitizer report that lie in the code under test"""
        out = []
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", self.err):
            s = m.group(1)
            if "/src/" in s or "/repo/" in s:
                out.append(re.sub(r"\(.*", "", s.split(" /")[0]).strip())
            if len(out) >= n:
                break
        return out

    def why(self):
        if self.timeout:
            return "timeout"
        if self.san:
            return self.san[:300] + " in " + " < ".join(self.frames())
        if self.rc < 0:
            return "killed by signal %d; stderr: %s" % (-self.rc, self.err[-300:])
        return "exit %d; stderr: %s" % (self.rc, self.err[-300:])


def run(cmd, inp=None, timeout=120, env=None, cwd=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    r = Result()
    r.cmd = list(cmd)
    if isinstance(inp, str):
        inp = inp.encode("utf8", "surrogateescape")
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    r.timeout = False
    try:
        o, er = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
    r.wall = time.time() - t
    r.rc = p.returncode
    r.out = o.decode("utf8", "surrogateescape")
    r.err = er.decode("utf8", "surrogateescape")
    return r


def load_known(prop):
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <what fails>' and 'fixed: ...' lines"""
    d = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3)
    return d


class HarnessError(Exception):
    pass


class Check(object):
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.inconclusive = []
        self._lock = threading.RLock()

    thorough = property(lambda self: self.tier == "thorough")

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough if thorough is not None else quick * 8)

    def sub(self, name):
        """an independent, reproducible random stream"""
        return random.Random("%s/%d/%s" % (self.prop, self.seed, name))

    def path(self, name):
        return os.path.join(self.tmp, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf8", "surrogateescape"))
        return p

    def count(self, name, k=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + k

    def case(self, key=None, nontrivial=True, sample=None):
        """one observed execution judged by the oracle"""
        with self._lock:
            self._case(key, nontrivial, sample)

    def _case(self, key, nontrivial, sample):
        self.evaluations += 1
        if nontrivial and key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode("utf8", "surrogateescape")).digest()[:10])
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def violation(self, key, what, data=None):
        """key: short stable identifier of the failing input/history; matched against known_findings.txt"""
        with self._lock:
            self._violation(re.sub(r"\s+", "_", key), what, data)

    def _violation(self, key, what, data):
        if key in self.known:
            self.known_hit.setdefault(key, 0)
            self.known_hit[key] += 1
            return
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%03d.json" % (self.tier, self.seed, len(self.violations)))
        if len(self.violations) < 40 or not any(v[0] == key for v in self.violations[40:]):
            with open(p, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "seed": self.seed, "tier": self.tier,
                           "data": data, "cmd": "VERIF_SEED=%d VERIF_TIER=%s %s" % (self.seed, self.tier, " ".join(sys.argv))},
                          f, indent=1, default=str)
        self.violations.append((key, what, p))

    def expect(self, cond, key, what, data=None):
        if not cond:
            self.violation(key, what, data)
        return cond

    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples, "events": self.counters}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known):
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, self.known[k], k))
        # one of each kind first
        seen, first, rest = set(), [], []
        for v in self.violations:
            (rest if v[0] in seen else first).append(v)
            seen.add(v[0])
        for (k, w, p) in (first + rest)[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  key=%s %s" % (k, str(w)[:700]))
        if len(self.violations) > 10:
            print("  ... %d violations in all" % len(self.violations))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs %s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations), time.time() - self.t0,
            json.dumps(self.counters)))
        return 1 if self.violations else 0


def pmap(f, xs, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def build(variant, **kw):
    try:
        return _build.build(variant, **kw)
    except _build.BuildError as e:
        raise HarnessError("build: " + str(e))


def main(prop, fn, **kw):
    c = Check(prop, **kw)
    rc = 2
    try:
        fn(c)
        if c.evaluations == 0 and not c.violations:
            raise HarnessError("nothing was observed")
        rc = c.finish()
    except HarnessError as e:
        print("HARNESS-ERROR %s: %s" % (prop, e))
        # violations seen before the harness failed still stand
        if c.violations:
            rc = c.finish()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("HARNESS-ERROR %s" % prop)
        if c.violations:
            rc = c.finish()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def close(a, b, rel=1e-6, ab=1e-9):
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return a == b
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
