#!/usr/bin/env python3
"""C17: online learners against their update rules, step by step."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, mt, arpa
from common import close, run, pmap
import c13
from c13 import M, gen_sent, mutate
from c15 import show, parse_w, NAMES

BIG = 1.7976931348623157e308
KINDS = ["perceptron", "avgperceptron", "adagrad"]


class Learner(object):
    """the update rules, applied to every weight at every step"""
    def __init__(self, kind, init, rate, margin, l1, ranges):
        self.kind, self.w, self.rate, self.m, self.l1, self.r = kind, dict(init), rate, margin, l1, ranges
        self.t, self.tot, self.var, self.moved = 0, {}, {}, 0

    def clamp(self, k, v):
        lo, hi = self.r.get(k, self.r.get("*", (-BIG, BIG)))
        return min(max(v, lo), hi)

    def shrink(self):
        for k, v in self.w.items():
            v = max(v - self.l1, 0.0) if v > 0 else min(v + self.l1, 0.0)
            self.w[k] = self.clamp(k, v)

    def wants(self, os, oe, ss, se):
        return se < oe and ss + ((oe - se) * self.m if self.kind != "perceptron" else 0) >= os

    def update(self, of, os, oe, sf, ss, se):
        self.t += 1
        if self.kind == "adagrad":
            self.shrink()
        elif self.kind == "avgperceptron":
            for k, v in self.w.items():
                self.w[k] = self.clamp(k, v)
        if self.wants(os, oe, ss, se):
            self.moved += 1
            for k in set(of) | set(sf):
                d = of.get(k, 0.0) - sf.get(k, 0.0)
                if self.kind == "adagrad":
                    if d == 0:
                        continue
                    self.var[k] = self.var.get(k, 0.0) + d * d
                    d = d / self.var[k] ** 0.5
                self.w[k] = self.clamp(k, self.w.get(k, 0.0) + self.rate * d)
        if self.kind == "perceptron":
            self.shrink()
        for k, v in self.w.items():
            self.tot[k] = self.tot.get(k, 0.0) + v

    def adjust(self, hyps):
        o = max(range(len(hyps)), key=lambda i: (hyps[i][1], -i))
        s = max(range(len(hyps)), key=lambda i: (hyps[i][0] - hyps[i][1] * self.m, -i))
        self.update(hyps[o][2], hyps[o][0], hyps[o][1], hyps[s][2], hyps[s][0], hyps[s][1])

    def final(self):
        if self.kind != "avgperceptron" or not self.t:
            return dict(self.w)
        return dict((k, v / self.t) for k, v in self.tot.items())


def inside(ranges, w, names):
    """start weights in their ranges, present where the range does not allow zero"""
    clamp = Learner("", {}, 1, 0, 0, ranges).clamp
    return dict((k, clamp(k, w.get(k, 0.0))) for k in names if k in w or clamp(k, 0.0) != 0)


def feats(r, names):
    return dict((k, r.choice([1.0, 1.0, -1.0, 0.5, 2.0, r.randint(-12, 12) / 4.0])) for k in r.sample(names, r.randint(0, len(names))))


def same(a, b):
    return all(close(a.get(k, 0.0), b.get(k, 0.0), 1e-9, 1e-9) for k in set(a) | set(b))


def history(c, exe, i):
    r = c.sub("hist%d" % i)
    kind = r.choice(KINDS)
    names = NAMES[:r.choice([1, 2, 3, 5])]
    init = dict((k, r.randint(-8, 8) / 4.0) for k in names if r.random() < .4)
    rate = r.choice([1.0, 1.0, 0.5, 0.25, 2.0])
    margin = r.choice([0.0, 0.0, 1.0, 0.5, 4.0])
    l1 = 0.0 if kind == "avgperceptron" else r.choice([0.0, 0.0625, 0.25, 1.0])
    ranges = {}
    if r.random() < .4:
        for k in r.sample(names + ["*"], r.randint(1, 2)):
            a, b = sorted([r.randint(-12, 12) / 4.0, r.randint(-12, 12) / 4.0])
            if r.random() < .5:
                a, b = -abs(a), abs(b)
            ranges[k] = r.choice([(a, b), (a, BIG), (-BIG, b), (0.0, BIG)])
    # weights start in their range
    init = inside(ranges, init, names)
    m = Learner(kind, init, rate, margin, l1, ranges)
    L = ["\t".join(["W", kind, show(init), repr(rate), repr(margin), repr(l1)] + ["%s %r %r" % (k, a, b) for k, (a, b) in sorted(ranges.items())])]
    want = [None]
    reads = r.choice([0.0, 0.3, 0.7])
    for _ in range(r.choice([1, 3, 10, 40])):
        if r.random() < .5:
            of, sf = feats(r, names), feats(r, names)
            os, oe, ss, se = [r.randint(-8, 8) / 4.0 for _ in range(4)]
            if r.random() < .7 and oe < se:
                oe, se = se, oe
            L.append("\t".join(["U", show(of), repr(os), repr(oe), show(sf), repr(ss), repr(se)]))
            m.update(of, os, oe, sf, ss, se)
        else:
            hyps = [(r.randint(-8, 8) / 4.0, r.choice([0.0, 0.25, 0.5, 1.0]), feats(r, names)) for _ in range(r.randint(1, 5))]
            L.append("\t".join(["A"] + ["%r\t%r\t%s" % (s, e, show(f)) for s, e, f in hyps]))
            m.adjust(hyps)
        want.append(None)
        while r.random() < reads:
            k = r.randrange(3)
            if k == 0:
                x = r.choice(names + ["other"])
                L.append("R\t" + x); want.append(("R", x, m.w.get(x, 0.0)))
            elif k == 1:
                f = feats(r, names)
                L.append("V\t" + show(f)); want.append(("V", show(f), sum(v * m.w.get(k, 0.0) for k, v in f.items())))
            else:
                L.append("F"); want.append(("F", None, m.final()))
    L.append("F"); want.append(("F", None, m.final()))
    p = run([exe], "\n".join(L) + "\n", timeout=60)
    key = kind + (":l1" if l1 else "")
    data = {"script": L}
    c.case(("history", i), m.moved > 0, {"script": L[:4]})
    if not c.expect(p.rc == 0 and not p.crashed, "crash:" + ">".join(p.frames(2)), "the learner ended with " + p.why(), data):
        return
    out = p.out.split("\n")[:-1]
    c.count("updates:" + key, m.t); c.count("updates that moved weights:" + key, m.moved)
    c.expect(len(out) == len(L), "answers", "%d answers for %d operations" % (len(out), len(L)), data)
    for j, (a, w, l) in enumerate(zip(out, want, L)):
        if w is None:
            if not c.expect(a == "ok", "op:" + key, "%s answered %s" % (l, a), data):
                return
        elif w[0] == "F":
            got = parse_w(a[2:])
            c.count("weights read")
            if not c.expect(a[:2] == "F " and same(got, w[2]), "final:" + key, "operation %d: the weights are %s, the rule gives %s" % (j, show(got), show(w[2])), data):
                return
        else:
            c.count("weights read")
            if not c.expect(close(float(a), w[2], 1e-9, 1e-9), "current:" + key, "operation %d, %s %s: %s, the rule gives %r" % (j, w[0], w[1], a, w[2]), data):
                return


def sampler(c, exe, i):
    """pairs chosen by the ranking sampler"""
    r = c.sub("pro%d" % i)
    L, hs = [], []
    for _ in range(4):
        n = r.choice([1, 2, 3, 4, 6])
        names = NAMES[:2]
        alpha = r.choice([1.0, 1.0, 4.0, 100.0])
        base = r.choice([[0.0], [0.0, 0.25], [0.0, 0.03125, 0.25, 1.0], [0.0, 0.5, 1.0]])
        hyps = [(r.randint(-8, 8) / 4.0, r.choice(base), feats(r, names)) for _ in range(n)]
        l = "\t".join(["P", str(r.randint(1, 999)), repr(alpha)] + ["%r\t%r\t%s" % (s, e, show(f)) for s, e, f in hyps])
        L += [l, l]; hs += [(alpha, hyps)] * 2
    p = run([exe], "\n".join(L) + "\n", timeout=60)
    data = {"script": L}
    c.case(("pro", i), True, {"script": L[:1]})
    if not c.expect(p.rc == 0 and not p.crashed, "crash-pro:" + ">".join(p.frames(2)), "the sampler ended with " + p.why(), data):
        return
    out = p.out.split("\n")
    for j, ((alpha, hyps), a) in enumerate(zip(hs, out)):
        t = a.split("\t")
        d = {"script": [L[j]], "answer": a[:2000]}
        if j % 2:
            c.expect(a == out[j - 1], "pro-seed", "the same random seed gives other pairs", d)
        ups = [[float(x) for x in u.split()] for u in t[1:]]
        c.count("pairs sampled", len(ups))
        diffs = []
        for o, os, oe, s, ss, se in ups:
            if not c.expect(o >= 0 and s >= 0, "pro-foreign", "an update with features of no hypothesis", d):
                return
            o, s = int(o), int(s)
            x = hyps[o][1] - hyps[s][1]
            c.expect(x > 0 and x * alpha > 0.05, "pro-pair", "an update with a pair of evaluations %r and %r" % (hyps[o][1], hyps[s][1]), d)
            c.expect(os == hyps[o][0] and ss == hyps[s][0] and oe > se, "pro-scores", "an update with scores %r %r %r %r for hypotheses %r and %r" % (os, oe, ss, se, hyps[o], hyps[s]), d)
            diffs.append(x)
        c.expect(diffs == sorted(diffs, reverse=True), "pro-order", "pairs are not sorted by their difference: %s" % diffs, d)
        top = max(h[1] for h in hyps) - min(h[1] for h in hyps)
        if top * alpha >= 2.5:
            # each of 5000 draws hits the widest pair with a chance of at least 1/36
            c.expect(len(diffs) == 50 and diffs[0] == top, "pro-number", "%d updates, the widest of difference %r" % (len(diffs), diffs[:1]), d)
            c.count("certain samplings")
        elif top * alpha <= 0.05:
            c.expect(not diffs, "pro-close", "%d updates of pairs that are too close" % len(diffs), d)


class Lists(object):
    """n-best lists for tuning"""
    def __init__(self, r):
        self.m = m = r.choice([lambda: M("bleu:smooth=1", "bleu", order=4, smooth=1, prec=1.0, mean="geom", inverse=False, brev=True, scope="corpus"), lambda: M("zeroone", "zeroone"), lambda: c13.mk_wer(True)])()
        vocab = r.choice([list("ab"), list("abcd")])
        self.names = NAMES[:r.choice([1, 2, 3, 5])]
        self.n = r.choice([1, 2, 3, 5])
        self.refs = [gen_sent(r, vocab, 8) or ["a"] for _ in range(self.n)]
        self.ex, self.hyps = [], []
        for ref in self.refs:
            hs = []
            for _ in range(r.choice([1, 2, 3, 5])):
                hyp = mutate(r, ref, vocab) or ["a"]
                hs.append((hyp, feats(r, self.names)))
            self.hyps.append(hs)
            self.ex.append([(f, m.stats([ref], [h])) for h, f in hs])

    def dot(self, w, f):
        return sum(v * w.get(k, 0.0) for k, v in f.items())

    def best(self, w, i):
        """the model's hypothesis, None if rounding decides"""
        s = [self.dot(w, f) for f, _ in self.ex[i]]
        b = max(s)
        # (with round weights an equal score is equal, others are printed rounded)
        exact = all(v * 1024 == int(v * 1024) for v in w.values())
        if any((not exact or b > x) and j != s.index(b) and b - x < 1e-9 * max(1, abs(b)) and self.ex[i][j][1] != self.ex[i][s.index(b)][1] for j, x in enumerate(s)):
            return None
        return s.index(b)

    def score(self, sel):
        tot = None
        for i, k in enumerate(sel):
            st = self.ex[i][k][1]
            tot = list(st) if tot is None else [a + b for a, b in zip(tot, st)]
        return self.m.value(tot)


def top(v):
    """the positions that could be the first maximum"""
    b = max(v)
    near = [i for i, x in enumerate(v) if b - x <= 1e-10 * max(1.0, abs(b))]
    first = v.index(b)
    return [i for i in near if i == first or v[i] != b]


def tune(c, exe, i):
    r = c.sub("tune%d" % i)
    P = Lists(r)
    kind = r.choice(KINDS)
    rate = r.choice([1.0, 0.5, 2.0]); margin = r.choice([0.0, 0.0, 1.0, 4.0])
    algo = r.choice(["pairwise", "pairwise", "pairwise", "pro"])
    start = dict((k, r.randint(-4, 4) / 4.0) for k in P.names if r.random() < .6)
    iters = r.choice([1, 2, 5, 20])
    L = ["M\t" + P.m.cfg]
    for j, hs in enumerate(P.hyps):
        for h, f in hs:
            L.append("N\t%d\t%s\t%s\t%s" % (j, " ".join(P.refs[j]), " ".join(h), show(f)))
    n = len(L)
    t = "\t".join(["T", str(r.randint(1, 99)), str(iters), kind, algo, repr(rate), repr(margin), show(start)])
    L += [t, t]
    p = run([exe], "\n".join(L) + "\n", timeout=120)
    key = kind + ":" + algo
    data = {"script": L}
    c.case(("tune", i), len(P.names) > 0, {"script": L[:4]})
    if not c.expect(p.rc == 0 and not p.crashed, "crash-tune:" + ">".join(p.frames(2)), "tuning ended with " + p.why(), data):
        return
    out = p.out.split("\n")
    if not c.expect(out[:n] == ["ok"] * n and out[n].startswith("T "), "tune-setup", "answers %s" % [x[:80] for x in out[:n + 1]], data):
        return
    c.expect(out[n] == out[n + 1], "tune-seed:" + key, "the same seed gives other results", data)
    ans = out[n][2:].split("\t")
    val, fin, log = float(ans[0]), parse_w(ans[1]), [(int(x.split(" ", 1)[0]), parse_w(x.split(" ", 1)[1])) for x in ans[2:]]
    sel = [P.best(fin, j) for j in range(P.n)]
    if None not in sel:
        c.expect(close(val, P.score(sel), 1e-9, 1e-9), "tune-reported:" + key, "reports %r, the weights %s have %r" % (val, show(fin), P.score(sel)), data)
        c.count("reported scores judged")
    else:
        c.count("reported scores that rounding decides")
    c.expect(len(log) == iters * P.n and all(sorted(x for x, _ in log[k:k + P.n]) == list(range(P.n)) for k in range(0, len(log), P.n)), "tune-order:" + key, "the examples are visited in order %s" % [x for x, _ in log], data)
    if log:
        c.expect(same(log[0][1], start), "tune-start:" + key, "starts at %s instead of %s" % (show(log[0][1]), show(start)), data)
    c.count("tuning steps:" + key, len(log))
    if algo != "pairwise":
        return
    sel = [P.best(start, j) for j in range(P.n)]
    var, tot = {}, {}
    for s, (j, w) in enumerate(log):
        if None in sel:
            c.count("runs left when rounding decides")
            return
        # every candidate step by the update rule
        sc = [P.dot(w, f) for f, _ in P.ex[j]]
        ev = [P.score(sel[:j] + [k] + sel[j + 1:]) for k in range(len(sc))]
        cand = []
        for o in top(ev):
            for y in top([a - b * margin for a, b in zip(sc, ev)]):
                l = Learner(kind, w, rate, margin, 0.0, {})
                l.var = dict(var)
                slack = sc[y] + ((ev[o] - ev[y]) * margin if kind != "perceptron" else 0) - sc[o]
                for tilt in ([0.0] if abs(slack) > 1e-9 or slack == 0 else [-1e-6, 1e-6]):
                    l2 = Learner(kind, w, rate, margin, 0.0, {}); l2.var = dict(var)
                    l2.update(P.ex[j][o][0], sc[o], ev[o], P.ex[j][y][0], sc[y] + tilt, ev[y])
                    cand.append(l2)
        last = s + 1 == len(log)
        if last and kind == "avgperceptron":
            fits = [l for l in cand if same(dict((k, (tot.get(k, 0.0) + l.w.get(k, 0.0)) / len(log)) for k in set(tot) | set(l.w)), fin)]
        else:
            nxt = fin if last else log[s + 1][1]
            fits = [l for l in cand if same(l.w, nxt)]
        if not c.expect(fits, "tune-step:" + key + (":last" if last else ""), "step %d, example %d at %s: the next weights are %s, the rule gives %s" % (s, j, show(w), show(fin if last else log[s + 1][1]), " or ".join(show(l.w) for l in cand)), data):
            return
        c.count("steps that moved:" + key, fits[0].moved)
        var = fits[0].var
        if last:
            break
        for k, v in log[s + 1][1].items():
            tot[k] = tot.get(k, 0.0) + v
        sel[j] = P.best(log[s + 1][1], j)


def cli(c, exe, i):
    r = c.sub("cli%d" % i)
    P = Lists(r)
    kind = r.choice(KINDS)
    start = dict((k, r.randint(-4, 4) / 4.0) for k in P.names if r.random() < .8)
    args = ["-algorithm", r.choice(["online", "online", "onlinepro"]), "-update", kind, "-eval", P.m.cfg, "-rate", r.choice(["1", "0.5"]), "-margin_scale", r.choice(["0", "1"]), "-restarts", r.choice(["0", "2"]), "-threads", "1", "-rand_seed", str(r.randint(1, 99)), "-debug", "1"]
    rf = c.write("cli%d.ref" % i, "".join(" ".join(x) + "\n" for x in P.refs))
    nb = c.write("cli%d.nb" % i, "".join("%d ||| %s ||| 0 ||| %s\n" % (j, " ".join(h), show(f)) for j, hs in enumerate(P.hyps) for h, f in hs))
    wf = c.write("cli%d.w" % i, "".join("%s=%r\n" % kv for kv in sorted(start.items())))
    p = run([exe] + args + ["-nbest", nb, "-weight_in", wf, rf], timeout=120)
    data = {"args": args, "files": [open(x).read() for x in (nb, wf, rf)]}
    c.case(("cli", i), True, {"args": args})
    if not c.expect(p.rc == 0 and not p.crashed, "cli-crash:" + ">".join(p.frames(2)), "batch-tune ended with " + p.why(), data):
        return
    m = re.search(r"Best: (.*?) ?=> (\S+)$", p.err, re.M)
    runs = re.findall(r"(?:Init|Zero|Rand \d+): (.*?) ?=> (\S+)$", p.err, re.M)
    if not c.expect(m and len(runs) >= 2, "cli-report", "no results reported: " + p.err[-300:], data):
        return
    best = float(m.group(2))
    c.expect(all(best >= float(s) - 1e-6 for _, s in runs), "cli-best", "reports %r as the best of %s" % (best, runs), data)
    w = parse_w(p.out.strip())
    # weights are printed with 6 digits
    s = [[P.dot(w, f) for f, _ in ex] for ex in P.ex]
    if all(max(v) - x == 0 or max(v) - x > 1e-4 * max(1, max(abs(y) for y in v)) for v in s for x in v):
        sel = [v.index(max(v)) for v in s]
        if all(v.count(max(v)) == 1 for v in s):
            c.expect(abs(best - P.score(sel)) < 1e-5, "cli-score", "%r reports %r for %s, which has %r" % (args, best, show(w), P.score(sel)), data)
            c.count("batch-tune scores judged")
    q = run([exe] + args + ["-nbest", nb, "-weight_in", wf, rf], timeout=120)
    c.expect(q.out == p.out, "cli-seed", "the same random seed gives %r and %r" % (p.out, q.out), data)
    c.count("batch-tune runs")


VOC = ["a", "b", "c", "the", "dog"]
TRG = ["A", "B", "C", "la", "chien", "42"]
SYMS = ["NP", "VP", "PP", "N", "V"]
FEATS = ["p", "q", "lfreq", "w"]


def decoder(c, exe, i):
    """the decoder's tuning: each sentence is decoded with the weights its predecessors left"""
    r = c.sub("dec%d" % i)
    ms = [M("bleu:smooth=1", "bleu", order=4, smooth=1, prec=1.0, mean="geom", inverse=False, brev=True, scope="corpus"), M("zeroone", "zeroone"), M("ribes", "ribes", alpha=0.25, beta=0.1)]
    m = r.choice(ms)
    for _ in range(50):
        syms = r.sample(SYMS, r.randint(2, 4))
        sents = []
        for _ in range(r.randint(3, 10)):
            words = [r.choice(VOC) for _ in range(r.choice([1, 2, 3, 4]))]
            sents.append((words, mt.gen_tree(r, words, syms)))
        rules = mt.gen_rules(r, [x for _, x in sents], r.randint(8, 40), TRG, FEATS, 1, drop=0, dyadic=True, pdown=0.3)
        tfs = [(root, mt.translation_forest(root, words, rules, 1, False)) for words, root in sents]
        if max(mt.count_derivs(x, tf) for x, tf in tfs) <= 300:
            break
    else:
        return
    weights = dict((f, r.randint(-8, 8) / 4.0) for f in FEATS + ["unk"] if f == "unk" or r.random() < .8)
    use_lm = r.random() < .4
    if use_lm:
        weights.update(lm=r.choice([0.5, 1.0]), lmunk=r.choice([0.0, -1.0]))
    l1 = r.choice([0.0, 0.0, 0.0625, 0.25])
    ranges = {}
    if r.random() < .4:
        for k in r.sample(FEATS + ["*"], r.randint(1, 2)):
            ranges[k] = r.choice([(0.0, BIG), (-BIG, 1.5), (0.25, 2.0)])
    weights = inside(ranges, weights, FEATS + ["unk", "lm", "lmunk"])
    refs = []
    for x, tf in tfs:
        ds = mt.enumerate_derivs(x, tf, weights, 1)
        d = r.choice(ds)
        refs.append([(mutate(r, d.trg[0], TRG) or ["A"]) if r.random() < .3 else list(d.trg[0]) or ["A"] for _ in range(r.choice([1, 1, 2]))])
    nref = min(len(x) for x in refs)
    pre = "d%d." % i
    rfs = [c.write(pre + "ref%d" % k, "".join(" ".join(x[k]) + "\n" for x in refs)) for k in range(nref)]
    nbest = r.choice([2, 10, 400])
    kw = dict(tm_file=c.write(pre + "rt", "".join(x.line() + "\n" for x in rules)), tm_storage=r.choice(["hash", "marisa"]), weight_vals=weights,
              in_format="penn", binarize="none", nbest=nbest, nbest_out=c.path(pre + "nb"), threads=1, tune_update="perceptron", tune_loss=m.cfg,
              tune_ref_files="\n".join(rfs), tune_weight_out=c.path(pre + "wo"), tune_l1_coeff=l1)
    lm = None
    if use_lm:
        lm = arpa.gen(r, r.sample(TRG, r.randint(2, 5)), r.choice([2, 3]), 2)
        kw.update(lm_file=c.write(pre + "lm", lm.text()), pop_limit=10000000, chart_limit=0, search="cp")
    if ranges:
        kw["tune_weight_ranges"] = " ".join("%s|%s%s" % ("" if a == -BIG else a, "" if b == BIG else b, "" if k == "*" else "|" + k) for k, (a, b) in sorted(ranges.items()))
    cfg = mt.config(c.write, pre + "cfg", **kw)
    inp = "".join(mt.penn(x) + "\n" for _, x in sents)
    p = run([exe, "-config_file", cfg], inp)
    data = {"config": open(cfg).read(), "rules": [x.line() for x in rules], "input": inp, "refs": refs}
    c.case(("decoder", i), True, {"input": inp[:200]})
    if not c.expect(p.rc == 0 and not p.crashed and os.path.exists(c.path(pre + "wo")), "dec-crash:" + ">".join(p.frames(2)), "the decoder ended with " + p.why(), data):
        return
    tol = 3e-4 if lm else 1e-5
    nb = mt.parse_nbest(open(c.path(pre + "nb")).read(), 1)
    W = Learner("perceptron", weights, 1.0, 0.0, l1, ranges)
    for s, (x, tf) in enumerate(tfs):
        got = nb.get(s, [])
        ds = mt.enumerate_derivs(x, tf, W.w, 1)
        if lm:
            for d in ds:
                lp, u = lm.sentence(d.trg[0])
                d.score += W.w.get("lm", 0.0) * lp + W.w.get("lmunk", 0.0) * u
        what = "sentence %d with %s: " % (s, show(W.w))
        if not c.expect(got and (lm or len(got) == min(nbest, len(ds))), "dec-size", what + "%d translations of %d derivations" % (len(got), len(ds)), data):
            return
        b = max(d.score for d in ds)
        ok = close(got[0][1], b, tol, tol) and all(close(g[1], sum(v * W.w.get(k, 0.0) for k, v in g[2].items()), tol, 2 * tol) for g in got)
        if not c.expect(ok, "dec-score" + (":l1" if l1 else "") + (":lm" if lm else ""), what + "scores %s, the best derivation has %r" % ([(g[1], g[2]) for g in got[:3]], b), data):
            return
        c.count("sentences decoded")
        ev = [max(m.value(m.stats([ref], [list(g[0][0])])) for ref in refs[s][:nref]) for g in got]
        o = ev.index(max(ev))
        if any(0 < ev[o] - e < 1e-9 and got[k][2] != got[o][2] for k, e in enumerate(ev)):
            c.count("runs left when rounding decides")
            return
        n = W.moved
        W.update(got[o][2], got[o][1], ev[o], got[0][2], got[0][1], ev[0])
        c.count("updates by the decoder", W.moved - n)
    fin = parse_w(" ".join(open(c.path(pre + "wo")).read().split("\n")))
    c.expect(all(close(fin.get(k, 0.0), W.w.get(k, 0.0), tol, tol) for k in set(fin) | set(W.w)), "dec-final" + (":l1" if l1 else "") + (":lm" if lm else ""), "writes %s, the rule gives %s" % (show(fin), show(W.w)), data)


def body(c):
    b = common.build("asan", drivers=["weightops"], bins=["batch-tune", "travatar"])
    c.rule = "a history counts when weights moved; every value read and every step logged must be the one the update rule gives"
    c.assumptions = ["the perceptron shrinks weights after its update, adagrad before", "the averaged perceptron has no L1 regularization", "the pair sampler draws 5000 pairs and updates with the 50 widest"]
    pmap(lambda i: history(c, b["weightops"], i), range(c.n(2500, 30000)))
    pmap(lambda i: sampler(c, b["weightops"], i), range(c.n(60, 1000)))
    pmap(lambda i: tune(c, b["weightops"], i), range(c.n(800, 9000)))
    pmap(lambda i: cli(c, b["batch-tune"], i), range(c.n(80, 600)))
    pmap(lambda i: decoder(c, b["travatar"], i), range(c.n(250, 2500)))


if __name__ == "__main__":
    common.main("C17", body)
