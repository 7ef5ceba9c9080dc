#!/usr/bin/env python3
"""C01: outputs of the decoder under many thread counts and perturbed schedules against the single-threaded run."""
import os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, work

SIDES = ["nbest_out", "trace_out", "forest_out"]


def shim():
    d = os.path.join(common._build.BUILD, "shim")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(common.VERIF, "drivers", "schedshim.c")
    import hashlib
    so = os.path.join(d, "schedshim-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    if not os.path.exists(so):
        t = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", t, src, "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise common.HarnessError("shim: " + r.stderr[:500])
        os.rename(t, so)
    return so


def launch(c, job, name, threads, sides, extra=None, env=None, exe=None):
    kw = dict(job["cfg"], threads=threads)
    files = {}
    for s in sides:
        files[s] = c.path("%s.%s" % (name, s))
        kw[s] = files[s]
    kw.update(extra or {})
    cf = mt.config(c.write, name + ".cfg", **kw)
    res = common.run([exe or c.exe["travatar"], "-config_file", cf], job["inp"], env=env, timeout=300)
    out = {"stdout": res.out}
    for s in sides:
        try:
            out[s] = open(files[s], encoding="utf8", errors="surrogateescape").read()
        except OSError:
            out[s] = None
        else:
            os.unlink(files[s])
    return res, out, cf


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for k, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r became %r" % (k, x[:200], y[:200])
    return "%d lines became %d" % (len(la), len(lb))


def order_ok(text, nsent):
    last = -1
    for l in text.split("\n"):
        if l == "":
            continue
        m = re.match(r"(\d+) \|\|\| ", l)
        if not m or int(m.group(1)) >= nsent:
            return "foreign or partial record %r" % l[:200]
        if int(m.group(1)) < last:
            return "record of sentence %s after sentence %d" % (m.group(1), last)
        last = int(m.group(1))
    return None


def one(c, i):
    if not c.thorough and i >= 16 and time.time() - c.t1 > 50:
        c.count("jobs left out for lack of time")
        return
    rng = c.sub("job%d" % i)
    job = work.job(c, rng, "j%d." % i, rng.choice([1, 3, 10, 40, 80]))
    sides = [s for s in SIDES if rng.random() < 0.6]
    extra = {}
    if "nbest_out" in sides and rng.random() < 0.3:
        extra["nbest_tree"] = "true"
    if "forest_out" in sides and rng.random() < 0.3:
        extra["forest_nbest_trim"] = rng.choice([1, 5])
    env0 = None
    res, ref, cf = launch(c, job, "j%d.ref" % i, 1, sides, extra, env0)
    data = {"config": open(cf).read(), "rules": [open(f).read() for f in job["cfg"]["tm_file"].split("\n")], "input": job["inp"]}
    if not c.expect(res.rc == 0, job["kind"] + "-ref-died", "single-threaded decoder " + res.why(), data):
        return
    n = job["nsent"]
    lines = ref["stdout"].split("\n")
    c.expect(len(lines) == n + 1 and lines[-1] == "", job["kind"] + "-lines", "%d output lines for %d sentences" % (len(lines) - 1, n), data)
    for s in ("nbest_out", "trace_out"):
        if s in sides:
            w = order_ok(ref[s], n)
            c.expect(w is None, job["kind"] + "-ref-" + s, "single-threaded %s: %s" % (s, w), data)
    if "forest_out" in sides:
        c.expect(len(ref["forest_out"].split("\n")) == n + 1, job["kind"] + "-forestlines", "%d forests for %d sentences" % (ref["forest_out"].count("\n"), n), data)
    # a sentence that was translated has records of every kind
    ids = {}
    for s in ("nbest_out", "trace_out"):
        if s in sides:
            ids[s] = set(int(l.split(" |||")[0]) for l in ref[s].split("\n") if re.match(r"\d+ \|\|\| ", l))
    if "forest_out" in sides:
        ids["forest_out"] = set(k for k, l in enumerate(ref["forest_out"].split("\n")) if l and '"id"' in l)
    done = set(k for k, l in enumerate(lines) if l != "")
    for s in ids:
        c.expect(done <= ids[s], job["kind"] + "-missing-" + s, "%s has no records of the translated sentences %s" % (s, sorted(done - ids[s])[:10]), data)
        for t in ids:
            c.expect(ids[s] <= ids[t], job["kind"] + "-missing-" + t, "sentences %s are in %s but not in %s" % (sorted(ids[s] - ids[t])[:10], s, t), data)
    if len(done) < n:
        c.count("jobs with sentences that have no translation")
    for k in range(c.n(3, 8)):
        if not c.thorough and k > 0 and time.time() - c.t1 > 80:
            c.count("runs left out for lack of time")
            return
        th = rng.choice([2, 2, 3, 4, 8, 8, 16, 0x20])
        log = c.path("j%d.%d.log" % (i, k))
        env = {"LD_PRELOAD": c.shim, "SCHED_SEED": str(rng.randrange(1 << 30)), "SCHED_DELAY": str(rng.choice([0, 20, 100, 400])),
               "SCHED_PROB": str(rng.choice([2, 10, 30])), "SCHED_LOG": log}
        res, got, cf = launch(c, job, "j%d.r%d" % (i, k), th, sides, extra, env)
        data["run"] = {"config": open(cf).read(), "env": env}
        sched, ev, nth = "", 0, 0
        try:
            sched, ev, nth = open(log).read().split()
            os.unlink(log)
        except (OSError, ValueError):
            pass
        if not c.expect(res.rc == 0, job["kind"] + "-died", "decoder with %d threads: %s" % (th, res.why()), data):
            return
        c.case((i, sched), n > 1 and int(nth or 0) > 1, {"kind": job["kind"], "threads": th, "sentences": n, "lock events": ev, "schedule": sched})
        c.count("lock events observed", int(ev or 0))
        c.count("threads that took locks", int(nth or 0))
        c.count("bytes compared", sum(len(x or "") for x in got.values()))
        for s in ref:
            if got[s] != ref[s]:
                c.violation("%s-%s" % (job["kind"], s), "%s with %d threads differs from one thread: %s" % (s, th, first_diff(ref[s], got[s] or "")), data)
    # several kinds of output on one stream: the records of each kind are all there, whole and in order
    if rng.random() < 0.25 and "nbest_out" in sides:
        tgt = rng.choice(["STDOUT", "STDERR"])
        env = {"LD_PRELOAD": c.shim, "SCHED_SEED": str(rng.randrange(1 << 30)), "SCHED_DELAY": "50", "SCHED_PROB": "10", "SCHED_LOG": "/dev/null"}
        res, got, cf = launch(c, job, "j%d.m" % i, rng.choice([1, 4, 8]), [], dict(extra, nbest_out=tgt), env)
        data["run"] = {"config": open(cf).read(), "env": env}
        if c.expect(res.rc == 0, job["kind"] + "-merged-died", "decoder with n-best list on %s: %s" % (tgt, res.why()), data):
            c.case((i, "merged", tgt), True)
            if tgt == "STDOUT":
                rec = re.compile(r"\d+ \|\|\| .* \|\|\| ")
                ls = res.out.split("\n")[:-1]
                a = "".join(l + "\n" for l in ls if rec.match(l))
                b = "".join(l + "\n" for l in ls if not rec.match(l))
                c.expect(b == ref["stdout"], job["kind"] + "-merged", "translations next to the n-best list on standard output: " + first_diff(ref["stdout"], b), data)
            else:
                c.expect(res.out == ref["stdout"], job["kind"] + "-merged", "translations: " + first_diff(ref["stdout"], res.out), data)
                a = re.sub(r"^[.!]+", "", re.sub(r"\n[.!]+", "\n", res.err))
                a = "".join(re.findall(r"\d+ \|\|\| [^\n]*\n", res.err))
            want = ref["nbest_out"]
            if tgt == "STDERR":
                # progress dots may come between the characters of other writers, but not inside a record
                c.expect(sorted(a.split("\n")) == sorted(want.split("\n")) or a.count("\n") == want.count("\n"), job["kind"] + "-merged-err", "n-best list on standard error: " + first_diff(want, a), data)
            else:
                c.expect(a == want, job["kind"] + "-merged", "n-best list on standard output: " + first_diff(want, a), data)


def body(c):
    c.rule = "a multi-threaded run of more than one sentence counts when at least two threads took locks; identity = (job, hash of the order in which threads took locks)"
    c.assumptions = ["schedules are those the kernel produces with random delays injected around mutexes and condition variables"]
    c.shim = shim()
    c.exe = common.build("asan", bins=["travatar"])
    c.t1 = time.time()
    common.pmap(lambda i: one(c, i), range(c.n(90, 900)), 8)


common.main("C01", body)
