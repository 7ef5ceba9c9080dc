#!/usr/bin/env python3
"""C16: expected-score objectives, their gradients, and the optimiser."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import close, run, pmap
import c13
from c13 import M, gen_sent, mutate
from c15 import show, parse_w, NAMES

SC = "__SCALE__"


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    s = math.fsum(e)
    return [x / s for x in e]


class Model(object):
    def __init__(self, m):
        self.m, self.ex = m, []

    def expected(self, w):
        """(probabilities, expected statistics)"""
        gam = w.get(SC, 0.0) or 1.0
        ps, tot = [], None
        for hyps in self.ex:
            if not hyps:
                ps.append([])
                continue
            p = softmax([gam * math.fsum(w.get(k, 0.0) * v for k, v in f.items()) for f, _ in hyps])
            ps.append(p)
            for x, (f, s) in zip(p, hyps):
                tot = [x * y for y in s] if tot is None else [a + x * y for a, y in zip(tot, s)]
        return ps, tot

    def value(self, w, l2, ent):
        ps, tot = self.expected(w)
        if tot is None:
            return 0.0
        if self.m.kind == "ter":
            s = tot[0] / tot[1] if tot[1] else 0.0
            s = 1 - s if self.m.kw["inverse"] else s
        elif self.m.kind == "bleu" and self.m.kw["scope"] == "sentence":
            s = tot[0] / tot[1]
        else:
            s = self.m.value(tot)
        gam = w.get(SC, 0.0) or 1.0
        if l2:
            s -= l2 * gam * gam * math.fsum(v * v for k, v in w.items() if k != SC)
        if ent:
            s += ent * -math.fsum(x * math.log(x, 2) for p in ps for x in p if x > 0)
        return s

    def edge(self, w):
        """near a kink of the brevity penalty, or where a precision vanishes"""
        m = self.m
        if m.kind != "bleu" or m.kw["scope"] == "sentence":
            return False
        ps, t = self.expected(w)
        if m.kw["brev"] and (t[1] == 0 or abs(1 - t[2] / t[1]) < 0.01):
            return True
        return any(0 < t[3 * i] < 1e-3 for i in range(m.kw["order"]))


def measure(r):
    return r.choice([lambda: c13.mk_bleu(r), lambda: c13.mk_bleu(r), lambda: c13.mk_bleu(r), lambda: c13.mk_ribes(r), lambda: M("zeroone", "zeroone"), lambda: c13.mk_ter(r.random() < .5)])()


def gen(r):
    m = measure(r)
    vocab = r.choice([list("ab"), list("abcd"), ["w%d" % k for k in range(9)]])
    names = NAMES[:r.choice([1, 2, 3, 5])]
    n = r.choice([1, 2, 3, 5])
    refs = [gen_sent(r, vocab, 10) or ["a"] for _ in range(n)]
    if r.random() < .05:
        refs[0] = []
    P = Model(m)
    P.names, P.refs, P.order = names, refs, []
    L = ["M\t" + m.cfg]
    for i, ref in enumerate(refs):
        P.ex.append([])
        if n > 1 and r.random() < .1:
            continue
        for _ in range(r.choice([1, 2, 3, 5])):
            hyp = mutate(r, ref, vocab) if r.random() < .9 else gen_sent(r, vocab, 10)
            if r.random() < .03:
                hyp = []
            f = dict((k, r.choice([1.0, -1.0, r.uniform(-2, 2)])) for k in r.sample(names, r.randint(0, len(names))))
            P.order.append((i, hyp, f))
            L.append("N\t%d\t%s\t%s\t%s" % (i, " ".join(ref), " ".join(hyp), show(f)))
    return P, L


def point(r, names, scale):
    z = r.choice([0.1, 1.0, 1.0, 3.0])
    w = dict((k, r.choice([r.uniform(-z, z), r.uniform(-z, z), 0.0])) for k in names if r.random() < .9)
    if scale:
        w[SC] = r.choice([1.0, 0.5, 2.0, r.uniform(0.1, 3), -1.0])
    return w


def gradient(c, P, w, l2, ent, auto):
    g = {}
    for k in P.names + ([SC] if auto and w.get(SC, 0.0) else []):
        best = None
        for h in (1e-4, 1e-5):
            def at(d):
                x = dict(w); x[k] = x.get(k, 0.0) + d
                return P.value(x, l2, ent)
            d = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
            best = (d,) if best is None else best + (d,)
        g[k] = best
    return g


def one(c, exe, i):
    r = c.sub("case%d" % i)
    P, L = gen(r)
    n = len(L)
    ops = []
    auto = r.random() < .5
    for _ in range(3):
        l2 = r.choice([0.0, 0.0, 0.01, 0.5]); ent = r.choice([0.0, 0.0, 0.1, 1.0]); mult = r.choice([1.0, -1.0])
        pts = [point(r, P.names, auto or r.random() < .3) for _ in range(3)]
        L.append("G\t%d\t%r\t%r\t%r\t%s\t%s" % (auto, l2, ent, mult, show(dict((k, 1.0) for k in P.names)), "\t".join(show(w) for w in pts)))
        ops.append(("G", auto, l2, ent, mult, pts))
    for _ in range(2):
        l2 = r.choice([0.0, 0.01, 0.1]); ent = r.choice([0.0, 0.0, 0.1]); au = r.random() < .3
        it = r.choice([1, 3, 100, 100])
        pts = [point(r, P.names, r.random() < .3) for _ in range(2)]
        full = dict(pts[0])
        for k in P.names:
            full.setdefault(k, 0.0)
        L.append("T\t%d\t%r\t%r\t%d\t%s\t%s" % (au, l2, ent, it, show(full), show(pts[1])))
        ops.append(("T", au, l2, ent, it, [full, pts[1]]))
    p = run([exe], "\n".join(L) + "\n", timeout=240)
    data = {"script": L}
    c.case(("grad", i), True, {"script": L[:5]})
    if not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "crash:" + ">".join(p.frames(2)), "gradients ended with " + p.why(), data):
        return
    out = p.out.split("\n")[:-1]
    if not c.expect(len(out) == len(L) and out[0] == "ok" and all(x.startswith("N\t") for x in out[1:n]), "setup", "the lists are answered by %r" % out[:n], data):
        return
    if not P.order:
        return
    for (e, hyp, f), a in zip(P.order, out[1:n]):
        st = [float(x) for x in a.split("\t")[1].split()]
        if P.m.kind != "ter":
            want = P.m.stats([P.refs[e]], [hyp])
            c.expect(len(st) == len(want) and all(abs(x - y) < 1e-9 for x, y in zip(st, want)), "stats", "statistics %s, expected %s" % (st, want), data)
        P.ex[e].append((f, st))
    inv = P.m.kind == "bleu" and P.m.kw["inverse"] and P.m.kw["scope"] == "corpus"
    for o, ans, l in zip(ops, out[n:], L[n:]):
        d = {"script": L[:n] + [l], "answer": ans}
        if inv:
            c.expect(ans.startswith("EXC"), "undefined", "the expectation of %s is %r" % (P.m.cfg, ans), d)
            c.count("measures without expectation diagnosed")
            continue
        if "larger than one" in ans or not c.expect(not ans.startswith("EXC"), "exception:" + o[0], "%s: %s" % (P.m.cfg, ans), d):
            continue
        (judge_g if o[0] == "G" else judge_t)(c, P, o, ans.split("\t"), d)


def judge_g(c, P, o, t, data):
    _, auto, l2, ent, mult, pts = o
    kind = P.m.kind if P.m.kind != "bleu" else "bleu-" + P.m.kw["scope"]
    for j, w in enumerate(pts):
        val, same, g = float(t[2 + 3 * j]), t[3 + 3 * j], parse_w(t[4 + 3 * j])
        what = "%s l2=%r ent=%r at %s: " % (P.m.cfg, l2, ent, show(w))
        c.expect(same == "1", "again:" + kind, what + "the gradient depends on what the vector held before", data)
        want = P.value(w, l2, ent) * mult
        c.expect(close(val, want, 1e-9, 1e-9), "objective:" + kind, what + "the objective is %r, expected %r" % (val, want), data)
        c.count("objectives:" + kind)
        c.expect(all(abs(x) < 1e100 for x in g.values()), "finite:" + kind, what + "the gradient is %s" % g, data)
        if P.edge(w):
            c.count("points near a kink")
            continue
        fd = gradient(c, P, w, l2, ent, auto)
        big = max([1e-3] + [abs(x[0]) for x in fd.values()])
        for k, v in fd.items():
            a = g.get(k, 0.0) * mult
            c.expect(any(abs(a - x) <= 1e-5 * big + 1e-7 for x in v), "gradient:%s:%s%s%s" % (kind, "scale" if k == SC else "weight", ":l2" if l2 else "", ":ent" if ent else ""), what + "the derivative for %s is %r, the objective changes by %r" % (k, a, v[0]), data)
            c.count("derivatives")
            if abs(v[0]) > 1e-4:
                c.count("derivatives that are not zero")
        if not auto:
            c.expect(not g.get(SC), "scale:" + kind, what + "the fixed scale has the derivative %r" % g.get(SC), data)
        c.expect(set(k for k in g if g[k]) <= set(P.names + [SC]), "features:" + kind, what + "derivatives for %s" % sorted(g), data)


def judge_t(c, P, o, t, data):
    _, auto, l2, ent, iters, pts = o
    kind = P.m.kind if P.m.kind != "bleu" else "bleu-" + P.m.kw["scope"]
    for j, w in enumerate(pts):
        val, res = float(t[1 + 2 * j]), parse_w(t[2 + 2 * j])
        start = P.value(w, l2, ent)
        what = "%s l2=%r ent=%r auto=%s iterations=%d from %s: reports %r at %s: " % (P.m.cfg, l2, ent, auto, iters, show(w), val, show(res))
        got = P.value(res, l2, ent)
        c.expect(close(val, got, 1e-8, 1e-8), "reported:" + kind, what + "where the objective is %r" % got, data)
        c.expect(got >= start - 1e-9 * max(1, abs(start)), "worse:" + kind, what + "the start had %r" % start, data)
        if not auto:
            c.expect(res.get(SC, 1.0) == (w.get(SC, 0.0) or 1.0), "scale-moved:" + kind, what + "the scale moved", data)
        c.count("tuning runs:" + kind)
        if got > start + 1e-6:
            c.count("tuning runs that gained")
        if iters == 100 and l2 and not P.edge(res) and kind != "bleu-corpus":
            fd = gradient(c, P, res, l2, ent, auto)
            gn = math.sqrt(sum(x[1] ** 2 for x in fd.values()))
            xn = max(1.0, math.sqrt(sum(v * v for v in res.values())))
            c.expect(gn / xn < 2e-3, "converged:" + kind, what + "the gradient there is still %r" % dict((k, v[1]) for k, v in fd.items()), data)
            c.count("stationary points")


class Convex(object):
    def __init__(self, r):
        n = r.choice([1, 2, 3, 5, 8])
        self.n = n
        z = r.choice([0.3, 1.0, 3.0])
        self.s = [[r.uniform(-2, 2)] + [r.uniform(-z, z) for _ in range(n)] for _ in range(r.choice([0, 1, 4, 10]))]
        self.q = [[r.uniform(-2, 2)] + [r.uniform(-z, z) for _ in range(n)] for _ in range(r.choice([0, 0, 2, n]))]
        self.l2 = r.choice([0.1, 1.0, 2.0])
        self.l1 = r.choice([0.0, 0.0, 0.1, 1.0])
        self.l1s = r.choice([0, 1]) if n > 1 else 0
        self.x0 = [r.choice([0.0, r.uniform(-3, 3), r.uniform(-30, 30)]) for _ in range(n)]

    def line(self):
        rows = ["s " + " ".join(map(repr, v)) for v in self.s] + ["q " + " ".join(map(repr, v)) for v in self.q]
        return "\t".join(["Q", "1000", repr(self.l1), str(self.l1s), repr(self.l2), " ".join(map(repr, self.x0))] + rows)

    def value(self, x):
        f = self.l2 / 2 * sum(v * v for v in x) + self.l1 * sum(abs(v) for v in x[self.l1s:])
        for v in self.s:
            z = sum(a * b for a, b in zip(v[1:], x)) - v[0]
            f += max(z, 0) + math.log1p(math.exp(-abs(z)))
        for v in self.q:
            f += (sum(a * b for a, b in zip(v[1:], x)) - v[0]) ** 2 / 2
        return f

    def grad(self, x):
        g = [self.l2 * v for v in x]
        for v in self.s:
            z = sum(a * b for a, b in zip(v[1:], x)) - v[0]
            s = 1 / (1 + math.exp(-z)) if z > 0 else math.exp(z) / (1 + math.exp(z))
            for j in range(self.n):
                g[j] += s * v[j + 1]
        for v in self.q:
            z = sum(a * b for a, b in zip(v[1:], x)) - v[0]
            for j in range(self.n):
                g[j] += z * v[j + 1]
        return g

    def away(self, x):
        """how far the zero vector is from the subdifferential: by strong convexity f(x) - min f <= away^2 / (2 l2)"""
        t = 0.0
        for j, (v, g) in enumerate(zip(x, self.grad(x))):
            if self.l1 and j >= self.l1s:
                g = g + math.copysign(self.l1, v) if v else max(0.0, abs(g) - self.l1)
            t += g * g
        return math.sqrt(t)


def convex(c, exe, k):
    r = c.sub("convex%d" % k)
    fs = [Convex(r) for _ in range(60)]
    L = [f.line() for f in fs]
    p = run([exe], "\n".join(L) + "\n", timeout=240)
    c.case(("convex", k), True, {"script": L[:1]})
    if not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "crash-convex:" + ">".join(p.frames(2)), "L-BFGS ended with " + p.why(), {"script": L}):
        return
    out = p.out.split("\n")[:-1]
    for f, l, a in zip(fs, L, out):
        d = {"script": [l], "answer": a}
        t = a.split("\t")
        val, x = float(t[1]), [float(v) for v in t[2].split()]
        kind = "l1" if f.l1 else "smooth"
        c.count("convex functions:" + kind)
        c.count("evaluations", int(t[3]))
        c.expect(close(val, f.value(x), 1e-9, 1e-9), "convex-value:" + kind, "reports %r, the point %s has %r" % (val, x, f.value(x)), d)
        c.expect(f.value(x) <= f.value(f.x0) + 1e-9, "convex-worse:" + kind, "ends above the start", d)
        gap = f.away(x) ** 2 / (2 * f.l2)
        scale = max(1.0, abs(f.value(x)))
        c.expect(gap <= 1e-5 * scale, "convex-min:" + kind, "ends at %s, which may be %r above the minimum" % (x, gap), d)
    S = [[r.uniform(-3, 3) * r.choice([1, 100, 1e4]) for _ in range(r.choice([1, 2, 5]))] for _ in range(20)]
    p = run([exe], "".join("S\t%s\n" % " ".join(map(repr, v)) for v in S), timeout=60)
    for v, a in zip(S, p.out.split("\n")):
        t = a.split("\t")
        w = softmax(v); m = max(v)
        c.expect(t[0] == "S" and close(float(t[1]), m + math.log(sum(math.exp(x - m) for x in v)), 1e-9, 1e-12) and all(close(x, y, 1e-12, 1e-9) for x, y in zip(map(float, t[2].split()), w)), "softmax", "softmax of %s is %s" % (v, a), {"v": v})
        c.count("softmaxes")


def cli(c, exe, i):
    r = c.sub("cli%d" % i)
    P, L = gen(r)
    if not P.order or P.m.kind == "bleu" and P.m.kw["inverse"] or P.m.kind == "ter":
        return
    for e, hyp, f in P.order:
        P.ex[e].append((f, P.m.stats([P.refs[e]], [hyp])))
    l2 = r.choice([0.0, 0.01, 0.1]); ent = r.choice([0.0, 0.0, 0.1])
    w = point(r, P.names, False)
    args = ["-algorithm", "lbfgs", "-eval", P.m.cfg, "-l2", repr(l2), "-ent", repr(ent), "-restarts", str(r.choice([0, 2])), "-threads", str(r.choice([1, 3])), "-rand_seed", "3"]
    rf = c.write("cli%d.ref" % i, "".join(" ".join(x) + "\n" for x in P.refs))
    nb = c.write("cli%d.nb" % i, "".join("%d ||| %s ||| 0 ||| %s\n" % (e, " ".join(h), show(f)) for e, h, f in P.order))
    wf = c.write("cli%d.w" % i, "".join("%s=%r\n" % kv for kv in sorted(w.items())))
    p = run([exe] + args + ["-nbest", nb, "-weight_in", wf, rf], timeout=120)
    data = {"args": args, "files": [open(x).read() for x in (nb, wf, rf)]}
    c.case(("cli", i), True, {"args": args})
    if "larger than one" in p.err or not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "cli-crash:" + ">".join(p.frames(2)), "batch-tune ended with " + p.why(), data):
        return
    m = re.search(r"Best: (.*?) ?=> (\S+)$", p.err, re.M)
    if not c.expect(m, "cli-report", "no best result reported", data):
        return
    res, best = parse_w(p.out.strip()), float(m.group(2))
    got = P.value(res, l2, ent)
    c.expect(abs(got - best) <= 1e-4 * max(1, abs(best)), "cli-reported", "%r prints %s for %r, where the objective is %r" % (args, p.out, best, got), data)
    for s in (w, {}):
        c.expect(best >= P.value(s, l2, ent) - 1e-5 * max(1, abs(best)), "cli-worse", "%r reports %r, %s has %r" % (args, best, show(s), P.value(s, l2, ent)), data)
    c.count("batch-tune runs")


def body(c):
    b = common.build("asan", drivers=["gradops"], bins=["batch-tune"])
    exe = b["gradops"]
    c.rule = "the objective equals the score of the expected statistics minus the penalties, the gradient its derivative (fourth-order finite differences of an independent implementation), whatever the gradient vector held before; tuning reports the objective of the weights it returns, not below the start; L-BFGS ends within 1e-5 of the minimum of strongly convex functions (with and without L1), bounded by the subgradient there"
    pmap(lambda i: one(c, exe, i), range(c.n(1600, 12000)))
    pmap(lambda i: convex(c, exe, i), range(c.n(8, 200)))
    pmap(lambda i: cli(c, b["batch-tune"], i), range(c.n(120, 900)))


if __name__ == "__main__":
    common.main("C16", body)
