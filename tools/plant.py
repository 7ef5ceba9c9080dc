"""author a planted bug in a scratch copy of /repo (PB, default /tmp/pb) and try it.
    plant.py new SPEC.py [--check]   SPEC.py sets: id, prop, edits=[(file, old, new)], needs, breaks, demo, files={name: text}
    plant.py try ID [--check]        re-validate an existing one
"""
import json, os, re, shutil, subprocess, sys, time
PB = os.environ.get("PB", "/tmp/pb")
SEED = "/verif/seeded"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)

def fresh():
    if not os.path.isdir(PB):
        sh("cp -a /repo " + PB)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (PB, PB, PB))

def make():
    r = sh("cd %s && make -j8 && sed 's#-C /repo##; s#/repo#%s#g' /opt/vp/kenlm_tests.mk > /tmp/kt.mk && make -j8 -f /tmp/kt.mk" % (PB, PB),
           env=dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8"))
    return r.returncode == 0, (r.stdout + r.stderr)[-3000:]

def tests():
    sh("sed 's#/repo#%s#g' /opt/vp/run_boost.py > /tmp/rb.py" % PB)
    os.makedirs(PB + "/_build", exist_ok=True)
    sh("python3 /tmp/rb.py /tmp/rb.lines /tmp/rb.log")
    passed = {l[5:].strip() for l in open("/tmp/rb.lines") if l.startswith("PASS ")}
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    return sorted(set(want) - passed)

def demo(d):
    import tempfile
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), t)
    try:
        r = subprocess.run(["bash", t + "/demo.sh"], cwd=PB, capture_output=True, text=True, errors="replace", timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    finally:
        shutil.rmtree(t)

def check(prop, seeds=(1,)):
    out = []
    for s in seeds:
        t = time.time()
        r = subprocess.run(["python3", "/verif/checks/%s.py" % prop.lower()], cwd="/verif", capture_output=True, text=True, errors="replace",
                           env=dict(os.environ, VF_REPO=PB, VERIF_SEED=str(s), VERIF_TIER="quick"))
        out.append("check rc=%d %.0fs %s" % (r.returncode, time.time() - t, "\n".join(r.stdout.splitlines()[-6:])[:1500]))
    return "\n".join(out)

def trial(id_, do_check, run_tests=True):
    d = os.path.join(SEED, id_)
    prop = json.load(open(d + "/meta.json"))["property"]
    fresh()
    ok, log = make()
    assert ok, log
    rc0, o0 = demo(d)
    print(id_, prop, "clean demo rc", rc0, "" if rc0 == 0 else o0)
    r = sh("git -C %s apply %s/patch.diff" % (PB, d))
    assert r.returncode == 0, r.stderr
    ok, log = make()
    print("build", ok, "" if ok else log)
    rc1, o1 = demo(d)
    print("patched demo rc", rc1, o1.strip()[-600:])
    if run_tests:
        miss = tests()
        print("tests missing:", miss[:10], len(miss))
    if do_check:
        print(check(prop))
    sh("git -C %s checkout -q -- ." % PB)

if sys.argv[1] == "new":
    S = {}
    exec(open(sys.argv[2]).read(), S)
    for b in S["BUGS"]:
        fresh()
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(PB, f)
            s = open(p, encoding="utf8").read()
            if s.count(old) != 1:
                print(b["id"], "old text occurs", s.count(old), "times in", f, ":", old[:60]); bad = True
                continue
            open(p, "w", encoding="utf8").write(s.replace(old, new))
        if bad:
            continue
        open(d + "/patch.diff", "w", encoding="utf8").write(sh("git -C %s diff" % PB).stdout)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(b["demo"])
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        trial(b["id"], "--check" in sys.argv)
else:
    for i in sys.argv[2:]:
        if not i.startswith("-"):
            trial(i, "--check" in sys.argv, "--notests" not in sys.argv)
