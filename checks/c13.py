"""C13: evaluation scores equal the metrics' definitions (instrumented mt-evaluator vs. evalref)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf"))
from common import *
import evalref as E

NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"


def gen_sent(r, vocab, maxlen):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, maxlen])
    return [r.choice(vocab) for _ in range(n)]


def mutate(r, s, vocab):
    s = list(s)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        k = r.randrange(5)
        if k == 0 and s:
            del s[r.randrange(len(s))]
        elif k == 1:
            s.insert(r.randint(0, len(s)), r.choice(vocab))
        elif k == 2 and s:
            s[r.randrange(len(s))] = r.choice(vocab)
        elif k == 3 and len(s) > 1:
            i = r.randrange(len(s)); j = r.randint(i + 1, len(s))
            seg = s[i:j]; del s[i:j]
            p = r.randint(0, len(s)); s[p:p] = seg
        elif k == 4 and len(s) > 1:
            i, j = r.randrange(len(s)), r.randrange(len(s)); s[i], s[j] = s[j], s[i]
    return s


class M(object):
    """one measure: config string + reference implementation of sentence and corpus values"""
    def __init__(self, cfg, kind, **kw):
        self.cfg, self.kind, self.kw = cfg, kind, kw
        self.factor = kw.get("factor", 0)

    def prepare(self, refs):
        if self.kind == "nist":
            self.w = E.nist_weights([x[0] for x in refs], self.kw["order"])
        for m in self.kw.get("parts", []):
            m.prepare(refs)

    def stats(self, ref, hyp):
        r, h = ref[self.factor], hyp[self.factor]
        k, kw = self.kind, self.kw
        if k == "bleu":
            v = E.bleu_stats(r, h, kw["order"])
            if kw["scope"] == "sentence":
                return [self._bleu(v)[0], 1.0]
            return v
        if k == "nist":
            v = E.nist_stats(r, h, kw["order"], self.w)
            if kw["scope"] == "sentence":
                return [E.nist_score(v, kw["order"], kw["beta"])[0], 1.0]
            return v
        if k == "ribes":
            return [E.ribes(r, h, kw["alpha"], kw["beta"]), 1.0]
        if k == "wer":
            return [E.edit(r, h), len(r)]
        if k == "ter":
            lo, hi = E.ter_bounds(r, h)
            return [lo, len(r), hi]
        if k == "zeroone":
            return [1.0 if r == h else 0.0, 1.0]
        if k in ("interp", "ainterp"):
            return [m.stats(ref, hyp) for m in kw["parts"]]

    def _bleu(self, v):
        kw = self.kw
        return E.bleu_score(v, kw["order"], kw["smooth"], kw["prec"], kw["mean"], kw["inverse"], kw["brev"])

    def add(self, a, b):
        if self.kind in ("interp", "ainterp"):
            return [m.add(x, y) for m, x, y in zip(self.kw["parts"], a, b)]
        return [x + y for x, y in zip(a, b)]

    def value(self, v):
        """expected value, or (lo,hi)"""
        k, kw = self.kind, self.kw
        if k == "bleu":
            return (v[0] / v[1] if v[1] else 0.0) if kw["scope"] == "sentence" else self._bleu(v)[0]
        if k == "nist":
            return (v[0] / v[1] if v[1] else 0.0) if kw["scope"] == "sentence" else E.nist_score(v, kw["order"], kw["beta"])[0]
        if k in ("ribes", "zeroone"):
            return v[0] / v[1] if v[1] else 0.0
        if k == "wer":
            x = v[0] / float(v[1]) if v[1] else 0.0
            return 1 - x if kw["reverse"] else x
        if k == "ter":
            lo, hi = (v[0] / float(v[1]), v[2] / float(v[1])) if v[1] else (0.0, 0.0)
            return (1 - hi, 1 - lo) if kw["inverse"] else (lo, hi)
        if k == "interp":
            return sum(c * m.value(x) for c, m, x in zip(kw["coef"], kw["parts"], v)) / sum(kw["coef"])
        if k == "ainterp":
            env = dict((n, m.value(x)) for n, m, x in zip(kw["names"], kw["parts"], v))
            try:
                return eval(re.sub(r"[A-Z]", lambda mm: "env['%s']" % mm.group(0), kw["expr"]), {"env": env})
            except ZeroDivisionError:
                return None

    def detail(self, v):
        k, kw = self.kind, self.kw
        if k == "bleu" and kw["scope"] == "corpus":
            return self._bleu(v)
        if k == "nist" and kw["scope"] == "corpus":
            return E.nist_score(v, kw["order"], kw["beta"])
        return None


def mk_bleu(r=None, factor=0):
    kw = dict(order=4, smooth=0.0, prec=1.0, mean="geom", inverse=False, brev=True, scope="corpus", factor=factor)
    cfg = []
    if r is not None:
        if r.random() < .6: kw["order"] = r.choice([1, 2, 3, 4, 5]); cfg.append("order=%d" % kw["order"])
        if r.random() < .5: kw["smooth"] = r.choice([0.0, 0.5, 1.0, 2.0]); cfg.append("smooth=%s" % kw["smooth"])
        if r.random() < .3: kw["prec"] = r.choice([0.1, 0.25, 0.3, 0.5, 0.7, 0.9, 1.0]); cfg.append("prec=%s" % kw["prec"])
        if r.random() < .4: kw["mean"] = r.choice(["geom", "arith"]); cfg.append("mean=" + kw["mean"])
        if r.random() < .25: kw["inverse"] = r.choice([True, False]); cfg.append("inverse=" + str(kw["inverse"]).lower())
        if r.random() < .3: kw["brev"] = r.choice([True, False]); cfg.append("brev=" + str(kw["brev"]).lower())
        if r.random() < .3: kw["scope"] = r.choice(["corpus", "sentence"]); cfg.append("scope=" + kw["scope"])
        r.shuffle(cfg)
    if factor: cfg.append("factor=%d" % factor)
    return M("bleu" + (":" + ",".join(cfg) if cfg else ""), "bleu", **kw)


def mk_nist(r=None):
    kw = dict(order=5, beta=E.NIST_BETA, scope="corpus", factor=0)
    cfg = []
    if r is not None:
        if r.random() < .6: kw["order"] = r.choice([1, 2, 3, 4, 5]); cfg.append("order=%d" % kw["order"])
        if r.random() < .4: kw["beta"] = r.choice([1.0, 2.5, 4.0]); cfg.append("beta=%s" % kw["beta"])
        if r.random() < .4: kw["scope"] = r.choice(["corpus", "sentence"]); cfg.append("scope=" + kw["scope"])
    return M("nist" + (":" + ",".join(cfg) if cfg else ""), "nist", **kw)


def mk_ribes(r=None, factor=0):
    kw = dict(alpha=0.25, beta=0.10, factor=factor)
    cfg = []
    if r is not None:
        if r.random() < .6: kw["alpha"] = r.choice([0.0, 0.1, 0.25, 0.5, 1.0]); cfg.append("alpha=%s" % kw["alpha"])
        if r.random() < .6: kw["beta"] = r.choice([0.0, 0.1, 0.5, 1.0]); cfg.append("beta=%s" % kw["beta"])
    if factor: cfg.append("factor=%d" % factor)
    return M("ribes" + (":" + ",".join(cfg) if cfg else ""), "ribes", **kw)


def mk_wer(rev=False, factor=0):
    cfg = (["reverse=true"] if rev else []) + (["factor=%d" % factor] if factor else [])
    return M("wer" + (":" + ",".join(cfg) if cfg else ""), "wer", reverse=rev, factor=factor)


def mk_ter(inv=False, factor=0):
    cfg = (["inverse=true"] if inv else []) + (["factor=%d" % factor] if factor else [])
    return M("ter" + (":" + ",".join(cfg) if cfg else ""), "ter", inverse=inv, factor=factor)


def mk_any(r, factor=0):
    return r.choice([lambda: mk_bleu(r, factor), lambda: mk_bleu(r, factor), lambda: mk_nist(r),
                     lambda: mk_ribes(r, factor), lambda: mk_wer(r.random() < .5, factor),
                     lambda: M("zeroone", "zeroone")])()


def mk_interp(r):
    parts = [mk_any(r) for _ in range(r.randint(1, 3))]
    co = [r.choice([0.25, 0.5, 1.0, 2.0, 0.1]) for _ in parts]
    return M("interp:" + "|".join("%s|%s" % (c, m.cfg) for c, m in zip(co, parts)), "interp", parts=parts, coef=co)


def rand_expr(r, names, d=0):
    k = r.random()
    if d > 3 or k < .3:
        return r.choice(names + [r.choice(["1", "2", "0.5", "3.25", "10"])])
    op = r.choice("+-*/+*-")
    e = rand_expr(r, names, d + 1) + op + rand_expr(r, names, d + 1)
    return "(" + e + ")" if r.random() < .5 else e


def mk_ainterp(r):
    names = r.sample(list("ABCDEFGXYZ"), r.randint(1, 3))
    parts = [mk_any(r) for _ in names]
    ex = rand_expr(r, names)
    return M("ainterp:" + "|".join("%s|%s" % (n, m.cfg) for n, m in zip(names, parts)) + "|" + ex, "ainterp",
             parts=parts, names=names, expr=ex)


def col(s):
    return " |COL| ".join(" ".join(x) for x in s)


def run_corpus(c, exe, ci):
    r = c.sub("corpus%d" % ci)
    nf = 2 if ci % 4 == 3 else 1
    vocab = r.choice([list("ab"), list("abcd"), ["w%d" % i for i in range(8)], ["の", "é", "a", "b", "\"", "x0", "a=b", "-"],
                      ["v%d" % i for i in range(40)]])
    maxlen = r.choice([15, 20, 30]) if ci % 5 else 60
    n = r.choice([1, 2, 12, 40, 60]) if ci % 3 else 60
    refs, hyps = [], []
    for _ in range(n):
        a, b = [], []
        for f in range(nf):
            x = gen_sent(r, vocab, maxlen)
            a.append(x)
            b.append(mutate(r, x, vocab) if r.random() < .8 else gen_sent(r, vocab, maxlen))
        refs.append(a); hyps.append(b)
    if ci % 7 == 2:
        hyps = [[list(f) for f in x] for x in refs]        # a perfect system
    ms = [mk_bleu(), mk_nist(), mk_ribes(), mk_wer(), mk_wer(True), mk_ter(), mk_ter(True), M("zeroone", "zeroone")]
    ms += [mk_bleu(r) for _ in range(6)] + [mk_nist(r), mk_nist(r), mk_ribes(r), mk_ribes(r)]
    ms += [mk_interp(r), mk_interp(r), mk_ainterp(r), mk_ainterp(r), mk_ainterp(r)]
    if nf == 2:
        ms += [mk_bleu(r, 1), mk_ribes(r, 1), mk_wer(False, 1), mk_ter(False, 1)]
    for m in ms:
        m.prepare(refs)
    rf = c.write("ref%d" % ci, "".join(col(x) + "\n" for x in refs))
    hf = c.write("hyp%d" % ci, "".join(col(x) + "\n" for x in hyps))
    cmd = [exe, "-ref", rf, "-sent", "true", "-eval", " ".join(m.cfg for m in ms), hf]
    p = run(cmd, timeout=240)
    if p.timeout:
        raise HarnessError("mt-evaluator timed out")
    if p.rc != 0:
        c.violation("crash:corpus%d" % ci, "mt-evaluator on a well-formed corpus: " + p.why(), {"cmd": cmd, "refs": refs, "hyps": hyps})
        return
    lines = p.out.split("\n")
    lines = [l for l in lines]
    pos = 0
    tot = [None] * len(ms)
    for i in range(n):
        for k, m in enumerate(ms):
            v = m.stats(refs[i], hyps[i])
            tot[k] = v if tot[k] is None else m.add(tot[k], v)
            pre = "Sent %d: " % i
            l = lines[pos] if pos < len(lines) else ""
            pos += 1
            if not l.startswith(pre):
                c.violation("format:corpus%d" % ci, "expected a line for sentence %d measure %s, got %r" % (i, m.cfg, l), {"cmd": cmd})
                return
            judge(c, m, v, l[len(pre):], "s%d/%d:%s" % (ci, i, m.cfg), {"ref": refs[i], "hyp": hyps[i], "measure": m.cfg})
    l = lines[pos] if pos < len(lines) else ""
    fields = l.split("\t")
    if len(fields) != len(ms):
        c.violation("format:corpus%d" % ci, "summary line has %d fields for %d measures: %r" % (len(fields), len(ms), l), {"cmd": cmd})
        return
    for k, m in enumerate(ms):
        judge(c, m, tot[k], fields[k], "c%d:%s" % (ci, m.cfg), {"refs": refs, "hyps": hyps, "measure": m.cfg})


def judge(c, m, v, text, key, data):
    want = m.value(v)
    c.count("measure:" + m.kind)
    if want is None:      # a formula that divides by zero has no defined value
        c.count("undefined-formula")
        return
    mm = (re.search(r"=(%s)$" % NUM, text) if m.kind == "ainterp" else re.match(r"[A-Z01_-]+ = (%s)" % NUM, text))
    if not mm:
        c.violation(key, "no finite score in %r" % text, data)
        return
    got = float(mm.group(1))
    data = dict(data, expected=want, got=got, text=text)
    nontriv = bool(data.get("ref") or data.get("refs"))
    c.case((m.cfg, str(data.get("ref")), str(data.get("hyp")), key if "refs" in data else ""), nontriv,
           sample={"measure": m.cfg, "ref": data.get("ref"), "hyp": data.get("hyp"), "expected": want, "reported": got}
           if m.kind in ("ribes", "bleu") and 0 < got < 1 else None)
    if got != got or got in (float("inf"), float("-inf")):
        c.violation(key, "score is not finite: %r" % text, data)
        return
    if isinstance(want, tuple):
        ok = want[0] - 1e-5 * max(1, abs(want[0])) <= got <= want[1] + 1e-5 * max(1, abs(want[1]))
        if want[0] == want[1]:
            c.count("ter-exact")
    else:
        ok = close(got, want, 2e-5, 2e-6)
    if not ok:
        c.violation(key, "reported %r, definition gives %r" % (got, want), data)
        return
    d = m.detail(v)
    if d:
        g = re.search(r", ((?:%s/?)+) \(BP=(%s), ratio=(%s|-nan), hyp_len=(%s), ref_len=(%s)\)" % (NUM, NUM, NUM, NUM, NUM), text)
        if not g:
            c.violation(key, "cannot read the components of %r" % text, data)
            return
        comp = [float(x) for x in g.group(1).split("/")]
        c.count("components")
        if len(comp) != len(d[1]) or not all(close(a, b, 2e-5, 2e-6) for a, b in zip(comp, d[1])) or \
                not close(float(g.group(2)), d[2], 2e-5, 2e-6) or not close(float(g.group(4)), d[3], 1e-5) or \
                not close(float(g.group(5)), d[4], 1e-5):
            c.violation(key + ":components", "components %r, definition gives %r" % (text, d), data)


def ter_shifts(c, exe):
    """short sentences: a single block move costs one edit; the greedy search reaches the one-move optimum almost always"""
    r = c.sub("ter")
    n = c.n(1200, 8000)
    pairs = []
    for k in range(n):
        if k % 2 == 0:      # distinct words, one block moved
            a = r.sample(["w%d" % i for i in range(30)], r.randint(2, 12))
            h = list(a)
            while h == a:
                i = r.randrange(len(h)); j = r.randint(i + 1, len(h))
                seg = h[i:j]; del h[i:j]
                p = r.randint(0, len(h)); h[p:p] = seg
        else:
            v = r.choice(["abcdefgh", "abc", "ab", "abcdefghijklmnop"])
            a = [r.choice(v) for _ in range(r.randint(1, 9))]
            h = mutate(r, a, v)
        pairs.append((a, h))
    rf = c.write("ter.ref", "".join(" ".join(a) + "\n" for a, _ in pairs))
    hf = c.write("ter.hyp", "".join(" ".join(h) + "\n" for _, h in pairs))
    p = run([exe, "-ref", rf, "-sent", "true", "-eval", "ter", hf])
    ls = p.out.split("\n")
    if p.rc != 0 or len(ls) < n:
        c.violation("ter-shifts-run", p.why())
        return
    over = 0
    for k, (a, h) in enumerate(pairs):
        got = round(float(ls[k].split("= ")[1]) * len(a), 3)
        c.case(("ter", a, h))
        if k % 2 == 0:
            c.expect(got == 1, "ter-block-move:%d" % k, "one moved block must cost one edit, reported %r" % got, (a, h))
        else:
            up = E.one_shift(a, h)
            if got > up + 0.01:
                over += 1
            c.expect(got >= E.ter_bounds(a, h)[0] - 0.01, "ter-low:%d" % k, "fewer edits (%r) than possible" % got, (a, h))
    c.count("ter-greedy-misses", over)
    c.expect(over <= 0.04 * n / 2, "ter-greedy", "the shift search missed a one-move improvement in %d of %d short pairs" % (over, n // 2))


def special(c, exe):
    """file-level behaviour: several systems, one-sentence corpora with bootstrap, length mismatch"""
    rf = c.write("sp.ref", "a b c d\n")
    hf = c.write("sp.hyp", "a b d\n")
    p = run([exe, "-ref", rf, "-bootstrap", "5", "-eval", "bleu:order=2 wer", rf, hf])
    c.case("one-sentence-bootstrap")
    c.expect(p.rc == 0, "bootstrap-one-sentence", "one-sentence corpus with -bootstrap: " + p.why())
    rf = c.write("sp2.ref", "a b c d\nb c\na a\n")
    hf = c.write("sp2.hyp", "a b d\nb\n")
    p = run([exe, "-ref", rf, "-eval", "wer", rf, hf])
    c.case("length-mismatch")
    ls = p.out.strip().split("\n")
    c.expect(p.rc == 0 and len(ls) == 2 and ls[0].endswith("\tWER = 0") and "FAILED" in ls[1], "length-mismatch",
             "a system file shorter than the reference must be reported as failed: %r %s" % (p.out, p.why()))
    hf = c.write("sp3.hyp", "a b d\nb\nc\nd\n")
    p = run([exe, "-ref", rf, "-eval", "wer", hf])
    c.case("too-long")
    c.expect(p.rc != 0 and "longer than reference" in p.err, "too-long",
             "a system file longer than the reference must be refused: rc=%d %r" % (p.rc, p.out))


def body(c):
    exe = build("asan", bins=["mt-evaluator"])["mt-evaluator"]
    c.rule = ("random reference/hypothesis corpora (hypotheses mutated from references by edits, moves and swaps; empty and one-word "
              "sentences; small and large vocabularies; factored text) scored by the sanitized mt-evaluator with random measure "
              "configurations; one case = one reported sentence or corpus score compared with evalref.py; non-trivial = reference not empty")
    c.assumptions = ["TER (greedy shift search) is judged by bounds: bag-of-words lower bound and edit-distance upper bound; all other measures exactly (printed precision)",
                     "formulas that divide by zero have no defined value and are skipped"]
    n = c.n(63, 500)
    pmap(lambda i: run_corpus(c, exe, i), range(n))
    special(c, exe)
    ter_shifts(c, exe)


if __name__ == "__main__":
    main("C13", body)
