#!/usr/bin/env python3
"""C22: n-best rescoring against a direct computation of every new score."""
import gzip, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import close
from c13 import mk_bleu, mk_ribes, mk_wer, mk_interp, mk_ainterp, M, mutate

FEATS = ["lm", "p(e|f)", "w", "x=y", "f_é", "unk", "lfreq", "1", "a:b"]


def num(r):
    return r.choice([r.uniform(-5, 5), float(r.randint(-3, 3)), -1e-3 * r.random(), r.uniform(-1, 1) * 10 ** r.uniform(-4, 4)])


def measure(r):
    while True:
        m = r.choice([lambda: mk_bleu(r), lambda: mk_bleu(), lambda: mk_ribes(r), lambda: mk_wer(True), lambda: mk_wer(False), lambda: M("zeroone", "zeroone"), lambda: mk_interp(r)])()
        if "nist" in m.cfg:
            continue                    # needs references for its weights, and there are none here
        return m


def gen(r):
    L = []
    vocab = r.choice([list("ab"), list("abcdefg"), ["の", "é", "\"", "|", "x0", "A", "-1", "<s>"]])
    ids = 0
    for _ in range(r.choice([1, 3, 12, 12])):
        k = r.choice([1, 1, 2, 3, 5, 10, 25])
        base = [r.choice(vocab) for _ in range(r.choice([0, 1, 2, 4, 7, 12]))]
        kind = r.choice(["unit", "ties", "wide", "far"])
        hyps = []
        for _h in range(k):
            w = mutate(r, base, vocab) if r.random() < 0.8 else [r.choice(vocab) for _x in range(r.randint(0, 6))]
            if hyps and r.random() < 0.15:
                w = list(r.choice(hyps)[0])
            sc = {"unit": lambda: r.uniform(-5, 5), "ties": lambda: float(r.randint(-2, 0)), "wide": lambda: r.uniform(-1, 1) * 10 ** r.uniform(-3, 5), "far": lambda: -1000.0 * r.randint(1, 5) + r.random()}[kind]()
            f = {}
            for _x in range(r.choice([0, 1, 2, 4, 8])):
                f[r.choice(FEATS)] = float("%.6g" % num(r))
            hyps.append((w, float("%.6g" % sc), f))
        L.append((ids, hyps))
        ids += r.choice([1, 1, 1, 2, 5])
    return L


def parse(line):
    c = line.split(" ||| ")
    if len(c) != 4:
        raise ValueError("%d columns in %r" % (len(c), line))
    f = {}
    for x in c[3].split(" "):
        if x:
            k, v = x.rsplit("=", 1)
            if k in f:
                raise ValueError("the feature %s occurs twice in %r" % (k, line))
            f[k] = float(v)
    return int(c[0]), c[1].split(" ") if c[1] else [], float(c[2]), f


def same_feats(a, b):
    a, b = {k: v for k, v in a.items() if v}, {k: v for k, v in b.items() if v}
    return set(a) == set(b) and all(close(a[k], b[k], 1e-5, 1e-9) for k in a)


def batch(c, exe, i):
    r = c.sub("b%d" % i)
    L = gen(r)
    text = "".join("%d ||| %s ||| %r ||| %s\n" % (k, " ".join(w), s, " ".join("%s=%r" % x for x in f.items())) for k, H in L for w, s, f in H)
    out = c.path("o%d" % i)
    args = ["-nbest_out", out]
    W = m = None
    scale, cnt = 1.0, 0
    inp = text
    z = r.random()
    if z < 0.4:
        args += ["-nbest", c.write("n%d" % i, text)]
        inp = ""
    elif z < 0.5:
        p = c.path("n%d.gz" % i)
        with gzip.open(p, "wb") as g:
            g.write(text.encode())
        args += ["-nbest", p]
        inp = ""
    elif z < 0.6:
        args += ["-nbest", "-"] if False else []
    if r.random() < 0.5:
        W = {k: num(r) for k in r.sample(FEATS + ["other"], r.randint(0, 7))}
        args += ["-weight_in", c.write("w%d" % i, "".join("%s=%r%s" % (k, v, r.choice("\n ")) for k, v in W.items()) + "\n")]
    if r.random() < 0.65:
        m = measure(r)
        args += ["-mbr_eval", m.cfg]
        if r.random() < 0.6:
            scale = r.choice([0.0, 0.1, 0.5, 2.0, 10.0])
            args += ["-mbr_scale", str(scale)]
        if r.random() < 0.4:
            cnt = r.choice([1, 2, 4, 10, 100])
            args += ["-mbr_hyp_cnt", str(cnt)]
    data = {"args": args, "nbest": text, "weights": W}
    p = common.run([exe] + args, inp, timeout=120)
    tag = ("weights" if W is not None else "") + ("+mbr" if m else "") + ("+cnt" if cnt else "")
    if not c.expect(not p.crashed and not p.timeout and p.rc == 0, "crash:%s:%s" % (tag, ">".join(p.frames(2))), "rescorer %s ended with %s" % (" ".join(args), p.why()), data):
        return
    try:
        got = [parse(l) for l in open(out, encoding="utf-8", newline="\n").read().split("\n")[:-1]]
    except ValueError as e:
        c.violation("format", "n-best output: %s" % e, data)
        return
    data["out"], data["stdout"] = got, p.out
    best = [l.split(" ") if l else [] for l in p.out.split("\n")[:-1]]
    if not c.expect(len(best) == len(L), "lines", "%d lines of output for %d lists" % (len(best), len(L)), data):
        return
    pos = 0
    for (k, H), top in zip(L, best):
        n = min(len(H), cnt) if m and cnt else len(H)
        G = got[pos:pos + n]
        pos += n
        d = dict(data, sentence=k)
        if not c.expect(len(G) == n and all(g[0] == k for g in G), "ids:" + tag, "list %d has the ids %s, expected %d of them" % (k, [g[0] for g in G], n), d):
            return
        new = [sum(W.get(a, 0.0) * v for a, v in f.items()) for w, s, f in H] if W is not None else [s for w, s, f in H]
        # every output is one of the hypotheses, each at most once
        left = list(range(len(H)))
        pick = []
        for g in G:
            q = [h for h in left if H[h][0] == g[1] and same_feats(H[h][2], g[3])]
            # among equals prefer the one whose score was printed, or that the cut-off would keep
            q.sort(key=lambda h: (abs(new[h] - g[2]) if not m else -new[h]))
            if not q:
                break
            left.remove(q[0])
            pick.append(q[0])
        if not c.expect(len(pick) == n, "hypotheses:" + tag, "list %d: the output %s is not one of the hypotheses left" % (k, G[len(pick)] if len(pick) < n else None), d):
            continue
        tol = lambda x: 1e-9 * max(1.0, max(abs(a) for a in new))
        if left and n:
            c.expect(max(new[h] for h in left) <= min(new[h] for h in pick) + tol(0), "cutoff", "list %d: a hypothesis scoring %r was dropped, one with %r kept" % (k, max(new[h] for h in left), min(new[h] for h in pick)), d)
        exp = {h: new[h] for h in pick}
        skip = False
        if m:
            mx = max(new[h] for h in pick)
            pr = {h: math.exp((new[h] - mx) * scale) for h in pick}
            z = math.fsum(pr.values())
            dist = {}
            for h in pick:
                dist[tuple(H[h][0])] = dist.get(tuple(H[h][0]), 0.0) + pr[h] / z
            val = {}
            for hyp in dist:
                e = 0.0
                for ref, q in dist.items():
                    v = m.value(m.stats([list(ref)], [list(hyp)]))
                    e += q * v
                val[hyp] = e
            exp = {h: val[tuple(H[h][0])] for h in pick}
            c.count("expectations computed", len(dist) ** 2)
        t = 2e-5
        for g, h in zip(G, pick):
            c.expect(close(g[2], exp[h], t, t), "score:" + tag, "list %d: %s scores %r, expected %r" % (k, H[h][0], g[2], exp[h]), d)
        eps = 1e-9 if m else tol(0)
        c.expect(all(exp[a] >= exp[b] - eps for a, b in zip(pick, pick[1:])), "order:" + tag, "list %d is in the order %s" % (k, [exp[h] for h in pick]), d)
        c.expect(top == G[0][1] if n else True, "best:" + tag, "list %d: the best line is %s, the list starts with %s" % (k, top, G[0][1]), d)
        c.count("lists rescored")
        c.count("hypotheses", n)
    c.expect(pos == len(got), "extra", "%d lines of n-best output, expected %d" % (len(got), pos), data)
    c.case((i,), len(text) > 100, {"args": args, "nbest": text[:300], "out": p.out[:200]})


def body(c):
    exe = common.build("asan", bins=["rescorer"])["rescorer"]
    c.rule = ("random n-best files (ties, duplicates, empty hypotheses, gaps in the ids, plain and gzipped) through the sanitized rescorer with random weights, measures, scales and cut-offs; "
              "every new score is computed directly from its definition, and lists are compared as multisets, by order and by best line. a batch with more than one short list is non-trivial")
    c.assumptions = ["numbers are printed with 6 digits", "NIST is left out: its weights come from references, which re-ranking does not have", "equal scores may come in any order"]
    common.pmap(lambda i: batch(c, exe, i), range(c.n(1500, 15000)))


if __name__ == "__main__":
    common.main("C22", body)
