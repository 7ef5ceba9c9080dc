#!/usr/bin/env python3
"""C15: line searches and minimum-error-rate tuning against an exact sweep of all crossings."""
import itertools, json, math, os, re, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import close, run, pmap
import c13, forest
from c13 import M, gen_sent, mutate

INF = float("inf")
NAMES = ["f0", "f1", "f2", "f3", "f4"]


def dot(w, f):
    return sum((Fr(v) * Fr(w[k]) for k, v in f.items() if k in w), Fr(0))


class Problem(object):
    """a tuning set: for every example a list of (features, statistics)"""

    def __init__(self, m):
        self.m, self.ex, self.mult = m, [], []

    def score(self, stats):
        tot = None
        for s in stats:
            tot = s if tot is None else self.m.add(tot, s)
        return self.m.value(tot)

    def options(self, w, tol=0):
        """for every example the statistics that may be chosen at these weights"""
        out = []
        for hyps in self.ex:
            if not hyps:
                continue
            v = [dot(w, f) for f, _ in hyps]
            top = max(v)
            t = Fr(tol) * (1 + abs(top)) if tol else 0
            o = []
            for x, (f, s) in zip(v, hyps):
                if x >= top - t and s not in o:
                    o.append(s)
            out.append(o)
        return out

    def achieved(self, w, tol=0, limit=3000):
        """all scores these weights may have, depending on how ties are broken (None if too many)"""
        o = self.options(w, tol)
        n = 1
        for x in o:
            n *= len(x)
        if n > limit:
            return None
        return [self.score(c) for c in itertools.product(*o)]

    def sweep(self, w, g, width=0):
        """[(left, right, score)] of all open intervals between crossings; None if identical lines differ in quality"""
        L = []
        P = set()
        for hyps in self.ex:
            # only the highest of parallel lines matters
            best = {}
            for f, s in hyps:
                a, b = dot(g, f), dot(w, f)
                if a not in best or best[a][0] < b:
                    best[a] = (b, [s])
                elif best[a][0] == b and s not in best[a][1]:
                    best[a][1].append(s)
            ls = sorted((a, b, s) for a, (b, s) in best.items())
            L.append(ls)
            for i in range(len(ls)):
                for j in range(i):
                    P.add((ls[i][1] - ls[j][1]) / (ls[j][0] - ls[i][0]))
        P = sorted(P)
        res = []
        for i in range(len(P) + 1):
            a = P[i - 1] if i else None
            b = P[i] if i < len(P) else None
            if a is not None and b is not None and b - a < width:
                continue
            x = Fr(0) if a is None and b is None else b - 1 if a is None else a + 1 if b is None else (a + b) / 2
            ch = []
            for ls in L:
                if ls:
                    o = max(ls, key=lambda l: l[0] * x + l[1])[2]
                    if len(o) > 1:
                        return None
                    ch.append(o[0])
            key = tuple(map(str, ch))
            if res and res[-1][3] == key:
                res[-1][1] = INF if b is None else b
                continue
            res.append([-INF if a is None else a, INF if b is None else b, self.score(ch), key])
        return res


def dyadic(r, k=8, d=4):
    return r.randint(-k * d, k * d) / float(d)


def gen_feats(r, names):
    n = r.choice([0, 1, 2, 3, len(names)])
    return dict((x, dyadic(r)) for x in r.sample(names, min(n, len(names))))


def measure(r):
    m = r.choice([lambda: c13.mk_bleu(r), lambda: c13.mk_bleu(r), lambda: c13.mk_bleu(r), lambda: c13.mk_ribes(r), lambda: c13.mk_wer(True), lambda: c13.mk_wer(False), lambda: M("zeroone", "zeroone"), lambda: c13.mk_interp(r)])()
    while "nist" in m.cfg:
        m = c13.mk_interp(r)
    return m


def show(d):
    return " ".join("%s=%r" % kv for kv in sorted(d.items()))


def jforest(F):
    N = [{"id": i, "sym": n[0], "span": [n[1], n[2]], "frontier": "U"} for i, n in enumerate(F.nodes)]
    E = []
    for i, (h, tails, sc, ft, trg) in enumerate(F.edges):
        e = {"id": i, "head": h, "trg": [{"words": [-1 - w if isinstance(w, int) else w for w in f]} for f in trg]}
        if tails:
            e["tails"] = tails
        if ft:
            e["features"] = ft
        E.append(e)
    return json.dumps({"nodes": N, "edges": E, "words": F.words})


def derivations(F, limit):
    """[(features, words)] of the root"""
    L = {}
    for v in F.order():
        d = []
        for e in F.by[v]:
            h, tails, sc, ft, trg = F.edges[e]
            cur = [(ft, [])]
            for t in tails:
                cur = [(plus(a, b), s + [k]) for a, s in cur for b, k in L[t]]
                if len(cur) > limit:
                    return None
            for f, ch in cur:
                o = []
                for w in trg[0]:
                    o += ch[w] if isinstance(w, int) else [w]
                d.append((f, o))
        # several derivations with the same features and words are one
        u = {}
        for f, o in d:
            u[(tuple(sorted((k, x) for k, x in f.items() if x)), tuple(o))] = (f, o)
        d = list(u.values())
        if len(d) > limit:
            return None
        L[v] = d
    return L[0]


def plus(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0.0) + v
    return d


def build_nbest(r, big):
    m = measure(r)
    P = Problem(m)
    vocab = r.choice([list("ab"), list("abcd"), ["w%d" % k for k in range(9)]])
    names = NAMES[:r.choice([1, 2, 3, 5])]
    n = r.choice([1, 2, 3, 5])
    refs = [[gen_sent(r, vocab, 10) or ["a"]] for _ in range(n)]
    m.prepare(refs)
    L = ["M\t" + m.cfg]
    order = []
    for i, ref in enumerate(refs):
        hyps = []
        if n == 1 or r.random() < .92:
            for _ in range(r.choice([1, 2, 4, 6, big])):
                hyp = [mutate(r, ref[0], vocab) if r.random() < .8 else gen_sent(r, vocab, 10)]
                f = gen_feats(r, names)
                hyps.append((f, m.stats(ref, hyp)))
                order.append((i, ref[0], hyp[0], f))
        P.ex.append(hyps)
    if r.random() < .5:
        r.shuffle(order)
    if not any(P.ex):
        return None
    for i, ref, hyp, f in order:
        L.append("N\t%d\t%s\t%s\t%s" % (i, " ".join(ref), " ".join(hyp), show(f)))
    P.names, P.refs, P.order = names, refs, order
    return P, L


def build_forest(r, big, tool=False):
    m = measure(r)
    P = Problem(m)
    vocab = r.choice([list("ab"), list("abcd"), ["w%d" % k for k in range(9)]])
    names = NAMES[:r.choice([1, 2, 3, 5])]
    n = r.choice([1, 2, 4])
    refs = [[gen_sent(r, vocab, 8) or ["a"]] for _ in range(n)]
    m.prepare(refs)
    mult = 1.0 / n if tool else r.choice([1.0, 1.0 / n, 0.5])
    L = ["M\t" + m.cfg]
    P.lines, P.mult = [], mult
    for i, ref in enumerate(refs):
        hyps = []
        for _ in range(r.choice([1, 1, 1, 2]) if not tool else 1):
            for _ in range(50):
                F = forest.gen(r, r.choice([1, 2, 3, 4, 5]), 3, r.choice([2, 2, 3]), "zero", feats=False, words=(ref[0] * 2 + vocab), complete=True)
                F.edges = [(h, t, 0.0, gen_feats(r, names), trg) for h, t, s, ft, trg in F.edges]
                F.words = ["s0", "s1"]
                F.finish()
                d = derivations(F, big)
                if d is not None and all(len(o) < 30 for f, o in d):
                    break
            else:
                return None
            for f, o in d:
                st = m.stats(ref, [o])
                hyps.append((f, c14scale(st, mult)))
            L.append("F\t%d\t%s\t%r\t%s" % (i, " ".join(ref[0]), mult, jforest(F)))
            P.lines.append(jforest(F))
        P.ex.append(hyps)
    P.names, P.refs, P.single = names, refs, len(P.lines) == n
    return P, L


def c14scale(a, p):
    return [c14scale(x, p) if isinstance(x, list) else x * p for x in a]


def bound(x):
    return "inf" if x == INF else "-inf" if x == -INF else repr(float(x))


def line_search(c, r, P, kind):
    """one random search and what it must answer"""
    names = P.names
    w = dict((k, dyadic(r)) for k in names if r.random() < .8)
    if r.random() < .2:
        w = dict((k, 0.0) for k in names)
    if r.random() < .1:
        w = {}
    exact = True
    if r.random() < .15:
        w = dict((k, r.uniform(-2, 2)) for k in names); exact = False
    q = r.random()
    g = {r.choice(names): 1.0} if q < .5 else dict((k, dyadic(r)) for k in names) if q < .85 else {} if q < .9 else dict((k, -x) for k, x in w.items())
    if r.random() < .12:
        g = dict((k, r.uniform(-1, 1)) for k in names); exact = False
    lo, hi = -INF, INF
    q = r.random()
    if q < .35:
        lo = r.choice([-INF, dyadic(r, 2), -0.5, 0.0, -4.0]); hi = r.choice([INF, dyadic(r, 2), 0.5, 0.0, 4.0])
        if lo > hi:
            lo, hi = hi, lo
    elif q < .45:
        lo = hi = r.choice([0.0, 0.0, dyadic(r, 2)])
    return w, g, lo, hi, exact


def judge_line(c, P, kind, w, g, lo, hi, exact, ans, data):
    width = 0 if exact else Fr(1, 10 ** 7)
    S = P.sweep(w, g, width)
    if S is None or any(s[2] is None for s in S):
        c.count("identical lines of different quality")
        return
    t = ans.split("\t")
    if t[0] != "L":
        return c.violation("line-answer", "the line search answers %r" % ans[:200], data)
    pos, before, after, gain = map(float, t[1:5])
    what = "%s, %s, direction %s from %s in [%s, %s]: step %r, score %r -> %r: " % (P.m.cfg, kind, show(g), show(w), lo, hi, pos, before, after)
    tol = 1e-9
    eq = lambda a, b: abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    c.count("line searches:" + kind)
    c.count("intervals", len(S))
    c.expect(lo <= pos <= hi and abs(pos) < 1e300, "range:" + kind, what + "the step is outside the permitted range", data)
    c.expect(eq(gain, after - before), "gain:" + kind, what + "reports a gain of %r" % gain, data)
    at0 = P.achieved(w, 0 if exact else 1e-9)
    q = [s for s in S if s[0] < hi and s[1] > lo] if lo < hi else []
    if at0 is not None:
        near = [s[2] for s in S if s[0] <= 0 <= s[1]]
        c.expect(any(eq(before, x) for x in list(at0) + near), "before:" + kind, what + "the score at no step is one of %s" % sorted(set(at0))[:5], data)
    best = max([s[2] for s in q]) if q else None
    if best is not None:
        slack = lo <= 0 <= hi and pos == 0 and at0 is not None and any(eq(after, x) for x in at0)
        c.expect(eq(after, best) or after > best and (slack or not exact), "optimum:" + kind, what + "the best score in the range is %r, of intervals %s" % (best, [(float(s[0]), float(s[1]), round(s[2], 5)) for s in S][:12]), data)
        if lo < 0 < hi or (lo <= 0 <= hi and not exact and False):
            c.expect(after >= best - tol * max(1.0, abs(best)), "worse:" + kind, what + "worse than staying", data)
    wp = dict(w)
    for k, v in g.items():
        wp[k] = Fr(wp.get(k, 0)) + Fr(v) * Fr(pos)
    ach = P.achieved(wp, 0 if exact else 1e-9)
    if ach is not None:
        c.expect(any(eq(after, x) for x in ach), "achieved:" + kind, what + "the moved weights score %s" % sorted(set(ach))[:5], data)
        c.count("reported score achieved")
        if len(set(ach)) == 1:
            c.count("reported score achieved without ties")
    if best is not None and at0 is not None and best > max(at0) + 1e-6:
        c.count("searches with a gain")
    if lo == hi:
        c.count("searches in a point range")


def gen_run(r, P):
    alg = r.choice(["mert", "greedy"])
    thr = r.choice([1e-6, 1e-6, 1e-3, 0.01])
    w = dict((k, dyadic(r)) for k in P.names if r.random() < .8)
    if r.random() < .2:
        w = {}
    dirs = r.choice(["coord", "coord", "coord rand=3", "rand=4", "coord xeval=0.1:10:10"]) if alg == "mert" else str(r.choice([0, 1, 3]))
    ranges = {}
    if r.random() < .4:
        for k in r.sample(P.names + [None], r.randint(1, len(P.names))):
            lo = r.choice([-INF, 0.0, -1.0, -0.5, 0.25]); hi = r.choice([INF, 1.0, 0.75, 4.0])
            if r.random() < .15:
                lo = hi = r.choice([0.0, 1.0, 0.5])
            ranges[k] = (lo, hi)
        for k in P.names:
            lo, hi = ranges.get(k, ranges.get(None, (-INF, INF)))
            x = w.get(k, 0.0)
            x = min(max(x, lo), hi)
            if x != 0 or k in w:
                w[k] = x
        # every weight starts where it may be
    return alg, thr, w, dirs, ranges


def parse_w(s):
    return dict((x.rsplit("=", 1)[0], float(x.rsplit("=", 1)[1])) for x in s.split(" ") if x)


def in_range(w, names, ranges):
    return [(k, w.get(k, 0.0)) for k in names for lo, hi in [ranges.get(k, ranges.get(None, (-INF, INF)))] if not lo - 1e-9 <= w.get(k, 0.0) <= hi + 1e-9]


def judge_run(c, P, kind, alg, thr, w, dirs, ranges, ans, data):
    t = ans.split("\t")
    if "Cannot optimize expectation" in ans and "xeval" in dirs:
        c.count("expectations not defined for the measure")
        return
    if t[0] != "W":
        return c.violation("run-answer", "tuning answers %r" % ans[:200], data)
    score, res = float(t[1]), parse_w(t[2])
    key = alg + ":" + kind
    what = "%s %s (%s, ranges %s) from %s reports %r at %s: " % (P.m.cfg, key, dirs, ranges, show(w), score, t[2])
    c.count("runs:" + key)
    tol = 1e-9
    eq = lambda a, b: abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    c.expect(all(abs(v) < 1e300 for v in res.values()), "run-finite:" + key, what + "weights are not finite", data)
    bad = in_range(res, P.names, ranges)
    c.expect(not bad, "run-range:" + key, what + "%s left the permitted range" % (bad,), data)
    ach = P.achieved(res, 1e-9)
    if ach is not None and not any(x is None for x in ach):
        c.expect(any(eq(score, x) for x in ach), "run-achieved:" + key, what + "the weights score %s" % sorted(set(ach))[:5], data)
    start = P.achieved(w)
    if start is not None and not any(x is None for x in start):
        c.expect(score >= min(start) - 1e-9, "run-worse:" + key, what + "the start scores %s" % sorted(set(start))[:5], data)
        if score > max(start) + 1e-6:
            c.count("runs that gained")
    dec = P.m.kind in ("ribes", "zeroone") or P.m.kind == "bleu" and P.m.kw["scope"] == "sentence"
    ties = P.options(res, 1e-9)
    if (alg == "mert" and "coord" in dirs and not ranges) or (alg == "greedy" and dec and kind == "nbest" and not ranges):
        if all(len(x) == 1 for x in ties):
            for k in P.names:
                if not any(f.get(k) for h in P.ex for f, _ in h):
                    continue
                S = P.sweep(res, {k: 1.0}, Fr(1, 10 ** 7))
                if S is None or any(s[2] is None for s in S):
                    continue
                best = max(s[2] for s in S)
                c.expect(best <= score + thr + 1e-9, "run-stops:" + key, what + "moving %s would raise the score to %r" % (k, best), data)
                c.count("stopping points checked")


def one(c, exe, i):
    r = c.sub("case%d" % i)
    kind = "forest" if i % 3 == 0 else "nbest"
    b = (build_forest if kind == "forest" else build_nbest)(r, c.n(8, 16) if kind == "nbest" else c.n(14, 40))
    if b is None:
        return
    P, L = b
    ops = []
    for _ in range(c.n(8, 16)):
        if r.random() < .7:
            o = line_search(c, r, P, kind)
            L.append("L\t%s\t%s\t%s\t%s" % (show(o[0]), show(o[1]), bound(o[2]), bound(o[3])))
            ops.append(("L", o))
        else:
            o = gen_run(r, P)
            if kind == "forest" and "xeval" in o[3]:
                continue
            if "nbest" == kind and "xeval" in o[3] and P.m.kind not in ("bleu",):
                continue
            if "xeval" in o[3] and (P.m.kw["scope"] == "sentence" or not all(P.ex)):
                continue
            L.append("RUN\t%s\t%r\t%s\t%s\t%s" % (o[0], o[1], o[3], " ".join("%s|%s" % (bound(x[0]), bound(x[1])) + ("|" + k if k else "") for k, x in sorted(o[4].items(), key=str)), show(o[2])))
            ops.append(("R", o))
    p = run([exe], "\n".join(L) + "\n", timeout=240)
    data = {"script": L}
    c.case((kind, i), len(P.ex) > 0, {"script": L[:6]})
    if not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "crash:" + ">".join(p.frames(2)), "tuning ended with " + p.why(), data):
        return
    out = p.out.split("\n")[:-1]
    n = len(L) - len(ops)
    if not c.expect(len(out) == len(L) and all(x == "ok" for x in out[:n]), "setup", "the tuning set is answered by %r" % [x for x in out[:n] if x != "ok"][:3], data):
        return
    for (k, o), ans, l in zip(ops, out[n:], L[n:]):
        d = {"script": L[:n] + [l], "answer": ans}
        if k == "L":
            judge_line(c, P, kind, *o, ans=ans, data=d)
        else:
            judge_run(c, P, kind, *o, ans=ans, data=d)


def cli(c, exe, i):
    """the command line tool: files in, the best of several starts out"""
    r = c.sub("cli%d" % i)
    kind = "forest" if i % 3 == 0 else "nbest"
    b = build_forest(r, 12, True) if kind == "forest" else build_nbest(r, 6)
    if b is None or False:
        return
    P = b[0]
    alg, thr, w, dirs, ranges = gen_run(r, P)
    if "xeval" in dirs:
        dirs = "coord"
    args = ["-eval", P.m.cfg, "-algorithm", alg if alg == "mert" else "greedy-mert", "-threshold", repr(thr), "-restarts", str(r.choice([0, 1, 4])), "-rand_seed", str(r.randint(1, 99)), "-threads", str(r.choice([1, 1, 2, 3]))]
    args += ["-debug", "1" if args[-1] == "1" else "0"]
    if alg == "mert":
        args += ["-mert_directions", dirs]
    rf = c.write("cli%d.ref" % i, "".join(" ".join(x[0]) + "\n" for x in P.refs))
    if kind == "nbest":
        o = P.order
        files = [o]
        if r.random() < .4:
            k = r.randint(0, len(o)); files = [o[:k], o[k:]]
        names = []
        for k, part in enumerate(files):
            names.append(c.write("cli%d.%d.nb" % (i, k), "".join("%d ||| %s ||| %s ||| %s\n" % (e, " ".join(hyp), 0, show(f)) for e, ref, hyp, f in part)))
        args += ["-nbest", ",".join(names)]
    else:
        args += ["-forest", c.write("cli%d.forest" % i, "".join(l + "\n" for l in P.lines))]
    if w and r.random() < .8:
        args += ["-weight_in", c.write("cli%d.w" % i, "".join("%s=%r\n" % kv for kv in sorted(w.items())))]
    else:
        w = {}
    # ends of ranges that start with a minus sign cannot start the argument
    rs = ["%s|%s" % ("" if x[0] == -INF else repr(x[0]), "" if x[1] == INF else repr(x[1])) + ("|" + k if k else "") for k, x in sorted(ranges.items(), key=lambda kv: (kv[1][0] != -INF and kv[1][0] < 0, str(kv[0])))]
    if rs and rs[0].startswith("-"):
        ranges, rs = {}, []
    if rs:
        args += ["-weight_ranges", " ".join(rs)]
    p = run([exe] + args + [rf], timeout=120)
    data = {"args": args, "files": [open(a).read() for x in args for a in x.split(",") if a.startswith("/")] + [open(rf).read()]}
    c.case(("cli", i), True, {"args": args})
    if not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "cli-crash:" + ">".join(p.frames(2)), "batch-tune ended with " + p.why(), data):
        return
    c.count("batch-tune runs:" + alg + ":" + kind)
    last = re.findall(r"(Init|Zero|Rand \d+|Best): ([^:\n]*?) ?=> (\S+)$", p.err, re.M)
    runs = [x for x in last if x[0] != "Best"]
    bests = [x for x in last if x[0] == "Best"]
    nr = int(args[args.index("-restarts") + 1]) + 2
    if not c.expect((len(runs) == nr or "1" != args[args.index("-threads") + 1]) and len(bests) == 1, "cli-report", "%d runs and %d best results are reported" % (len(runs), len(bests)), data):
        return
    what = "%s: %r: " % (P.m.cfg, args)
    best = float(bests[0][2])
    c.expect(best >= max([float(x[2]) for x in runs] + [-INF]) - 1e-9, "cli-best", what + "reports the best %r of %s" % (best, [x[2] for x in runs]), data)
    out = p.out.strip("\n")
    c.expect(out.strip() == bests[0][1].strip(), "cli-out", what + "prints %r, best is %r" % (out, bests[0][1]), data)
    res = parse_w(out)
    bad = [(k, x) for k, x in ((k, res.get(k, 0.0)) for k in P.names) for lo, hi in [ranges.get(k, ranges.get(None, (-INF, INF)))] if not lo - 1e-5 * max(1, abs(x)) <= x <= hi + 1e-5 * max(1, abs(x))]
    bad = [(k, x) for k, x in bad if any(k in f for h in P.ex for f, _ in h)]
    c.expect(not bad, "cli-range", what + "%s left the range: %s" % (bad, out), data)
    start = P.achieved(w)
    if start and all(x is not None for x in start):
        c.expect(best >= min(start) - 1e-4 * max(1, abs(best)), "cli-worse", what + "reports %r, the start scores %s" % (best, sorted(set(start))), data)
    ach = P.achieved(res, 1e-4)
    if ach and all(x is not None for x in ach):
        c.expect(any(abs(best - x) <= 1e-5 * max(1.0, abs(x)) for x in ach), "cli-achieved", what + "reports %r at %s, which scores %s" % (best, out, sorted(set(ach))[:5]), data)
        if len(set(ach)) == 1:
            c.count("best scores achieved without ties")


def body(c):
    b = common.build("asan", drivers=["mertops"], bins=["batch-tune"])
    exe = b["mertops"]
    c.rule = "the step lies in the range; its reported score is the maximum over all intervals between crossings of hypothesis lines (exact rational arithmetic) that the range meets, equals the score of the hypotheses the moved weights choose, and gain = after - before; tuning returns weights inside their ranges whose score is the one reported, not below the start, and (coordinate directions) that no single-feature move improves by more than the threshold"
    pmap(lambda i: one(c, exe, i), range(c.n(1000, 20000)))
    pmap(lambda i: cli(c, b["batch-tune"], i), range(c.n(150, 1500)))


if __name__ == "__main__":
    common.main("C15", body)
