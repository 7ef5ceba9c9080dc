#!/usr/bin/env python3
"""C02: ThreadSanitizer over the decoder, the tuner and the shared services, with perturbed schedules; task and output histories."""
import os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, work

TSAN = re.compile(r"(WARNING|ERROR): ThreadSanitizer: ([^\n(]*)")


def shim():
    import hashlib
    d = os.path.join(common._build.BUILD, "shim")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(common.VERIF, "drivers", "schedshim.c")
    so = os.path.join(d, "schedshim-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    if not os.path.exists(so):
        t = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", t, src, "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise common.HarnessError("shim: " + r.stderr[:500])
        os.rename(t, so)
    return so


def sched(c, rng, log):
    """environment that injects delays around locks; some runs have none, as delays also create ordering"""
    if rng.random() < 0.3:
        return {}, None
    return {"LD_PRELOAD": c.shim, "SCHED_SEED": str(rng.randrange(1 << 30)), "SCHED_DELAY": str(rng.choice([0, 20, 100, 300])),
            "SCHED_PROB": str(rng.choice([2, 10, 30])), "SCHED_LOG": log}, log


def judge(c, kind, r, data, allow_error=False):
    """violations for the races and failures of one run; True if it ended well"""
    reps = [x for x in r.err.split("==================") if TSAN.search(x)]
    for x in reps[:3]:
        m = TSAN.search(x)
        fr = [re.sub(r"\(.*", "", f).strip() for f in re.findall(r"#\d+ ([^\n]*?) /[^\n]*/src/(?:lib|include|kenlm|tercpp|marisa|bin|liblbfgs)/[^\n]*", x)]
        c.violation("%s-race-%s" % (kind, (fr or ["?"])[0]), "%s: %s in %s" % (kind, m.group(2).strip(), " < ".join(fr[:5])), dict(data, report=x[:4000]))
    if reps:
        return False
    if r.timeout:
        c.violation(kind + "-hang", "%s did not end within its time limit: deadlock or endless loop" % kind, data)
        return False
    if r.rc == 0:
        return True
    # (several threads that fail at once abort without a message from the exception, so only those of one thread can be read)
    msg = r.err[-1500:]
    if allow_error and r.rc == -6 and ("what():" in msg or "terminate called" in msg) and "Assertion" not in msg:
        return False
    c.violation(kind + "-died", "%s: %s" % (kind, r.why()), data)
    return False


def note(c, key, log, sample):
    h, ev, nth = "", 0, 0
    if log:
        try:
            h, ev, nth = open(log).read().split()
            os.unlink(log)
        except (OSError, ValueError):
            pass
    c.count("lock events observed", int(ev or 0))
    c.case(key + (h,), True, sample)


def late(c, what, i, quick_s):
    """the time of a kind of workload is used up (some of it always runs)"""
    if not c.thorough and i >= 15 and time.time() - c.t1 > quick_s:
        c.count(what + " left out for lack of time")
        return True
    return False


def decode(c, i):
    if late(c, "decoding jobs", i, 40):
        return
    rng = c.sub("dec%d" % i)
    job = work.job(c, rng, "d%d." % i, rng.choice([5, 15, 30]), heavy=0.7)
    cfg = dict(job["cfg"])
    for s in ("nbest_out", "trace_out", "forest_out"):
        if rng.random() < 0.5:
            cfg[s] = c.path("d%d.%s" % (i, s))
    th = rng.choice([2, 3, 4, 8])
    cf = mt.config(c.write, "d%d.cfg" % i, **dict(cfg, threads=th))
    env, log = sched(c, rng, c.path("d%d.log" % i))
    r = common.run([c.exe["travatar"], "-config_file", cf], job["inp"], env=env, timeout=300)
    data = {"config": open(cf).read(), "rules": [open(f).read() for f in cfg["tm_file"].split("\n")], "input": job["inp"], "env": env}
    if judge(c, "decoder-" + job["kind"], r, data):
        c.expect(r.out.count("\n") == job["nsent"], "decoder-lines", "%d lines for %d sentences with %d threads" % (r.out.count("\n"), job["nsent"], th), data)
        c.count("sentences decoded under ThreadSanitizer", job["nsent"])
        note(c, ("dec", i), log, {"kind": job["kind"], "threads": th, "sentences": job["nsent"]})


def tune(c, i):
    if late(c, "tuning jobs", i, 40):
        return
    rng = c.sub("tune%d" % i)
    job = work.job(c, rng, "t%d." % i, rng.choice([3, 6, 12]), heavy=0.4)
    nb, fo = c.path("t%d.nb" % i), c.path("t%d.fo" % i)
    cf = mt.config(c.write, "t%d.cfg" % i, **dict(job["cfg"], nbest=rng.choice([5, 15]), threads=2, nbest_out=nb, forest_out=fo, forest_nbest_trim=rng.choice([3, 5])))
    r = common.run([c.exe["travatar"], "-config_file", cf], job["inp"], timeout=300)
    data = {"config": open(cf).read(), "input": job["inp"]}
    if not judge(c, "decoder-" + job["kind"], r, data):
        return
    by = {}
    for l in open(nb, encoding="utf8", errors="surrogateescape"):
        f = l.split(" ||| ")
        by.setdefault(int(f[0]), []).append(f[1])
    refs = []
    for s in range(job["nsent"]):
        w = rng.choice(by.get(s, ["x"])).split(" ")
        if "|COL|" not in w:
            w = [x for x in w if rng.random() < .9]
        refs.append(" ".join(w))
    rf = c.write("t%d.ref" % i, "\n".join(refs) + "\n")
    wf = c.write("t%d.w" % i, "".join("%s=%r\n" % (k, float(v)) for k, v in job["cfg"]["weight_vals"].items()))
    alg = ["mert", "greedy-mert", "lbfgs", "online", "onlinepro"][i % 5]
    form = rng.choice(["nbest", "forest"]) if "mert" in alg else "nbest"
    ev = rng.choice(["bleu", "bleu:smooth=1,scope=sentence", "ribes", "zeroone", "ter", "interp:0.5|bleu|0.5|ribes"]) if alg != "lbfgs" else rng.choice(["bleu", "ribes", "ter"])
    th = rng.choice([2, 3, 4, 6])
    a = [c.exe["batch-tune"], "-algorithm", alg, "-" + form, nb if form == "nbest" else fo, "-eval", ev, "-threads", str(th),
         "-restarts", str(rng.choice([2, 4]) if alg in ("mert", "lbfgs") else rng.choice([1, 2])), "-weight_in", wf, "-rand_seed", "1", "-trg_factors", str(job["nfact"]),
         "-update", rng.choice(["perceptron", "avgperceptron", "adagrad"])]
    if alg == "mert" and rng.random() < .4:
        a += ["-mert_directions", rng.choice(["coord rand=3", "coord rand=1 xeval=0.1:10:10" if form == "nbest" and ev in ("bleu", "ribes") else "rand=4"])]
    env, log = sched(c, rng, c.path("t%d.log" % i))
    r = common.run(a + [rf], env=env, timeout=240)
    data = {"cmd": a, "system": open(nb if form == "nbest" else fo, errors="replace").read()[:20000], "refs": refs, "weights": open(wf).read(), "env": env}
    # an n-best list without hypotheses for one of the sentences is refused by some of the tuners
    gap = len(by) < job["nsent"]
    if judge(c, "tune-%s-%s" % (alg, form), r, data, allow_error=gap):
        c.expect(re.fullmatch(r"(\S+=\S+( \S+=\S+)*)?\n", r.out) is not None, "tune-output", "the tuner printed %r" % r.out[:300], data)
        c.count("tuning runs " + alg + " " + form)
        note(c, ("tune", i), log, {"algorithm": alg, "system": form, "measure": ev, "threads": th, "sentences": job["nsent"]})
    for f in (nb, fo):
        os.unlink(f)


def stress(c, i):
    if late(c, "service stress runs", i, 40):
        return
    rng = c.sub("stress%d" % i)
    mode = ["dict", "pool", "bin", "bleu"][i % 4]
    th = rng.choice([2, 3, 5, 8])
    n = rng.choice([20, 60, 150]) * (3 if mode in ("dict", "bleu") else 1)
    env, log = sched(c, rng, c.path("s%d.log" % i))
    a = [c.exe["mtstress"], mode, str(rng.randrange(1 << 20)), str(th), str(n)]
    r = common.run(a, env=env, timeout=120)
    data = {"cmd": a, "env": env, "out": r.out[:3000]}
    for l in r.out.split("\n"):
        if l.startswith("BAD "):
            c.violation("stress-" + mode, "%s with %d threads: %s" % (mode, th, l[4:]), data)
            return
    if judge(c, "stress-" + mode, r, data):
        c.count("stress events " + mode, int(r.out.split()[1]))
        note(c, ("stress", i), log, {"service": mode, "threads": th, "events": r.out.strip()})


def body(c):
    c.rule = "a run under ThreadSanitizer in which several worker threads were active; identity = (workload, hash of the order in which threads took locks)"
    c.assumptions = ["races are reported on the paths and interleavings that the workloads reach; libstdc++, boost and libc are not instrumented, except where inlined"]
    c.shim = shim()
    c.exe = common.build("tsan", bins=["travatar", "batch-tune"], drivers=["mtstress"])
    for f, n, width in ((stress, c.n(150, 600), 4), (decode, c.n(120, 400), 5), (tune, c.n(120, 500), 5)):
        c.t1 = time.time()
        common.pmap(lambda i: f(c, i), range(n), width)


common.main("C02", body)
