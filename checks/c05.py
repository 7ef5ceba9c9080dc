"""C05: the same table decoded through every storage back end, and with its lines spread in other orders."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, hiero, arpa
from common import close

VOC = ["a", "b", "c", "the", "dog", "x0", "@", "犬", "&quot;", "\"", "0", "-1", "N", "(", ")", "ab", "abc"]
TRG = ["A", "B", "C", "la", "42", "@", "x1", "\"", "犬", "|"]
SYMS = ["NP", "N", "NP-SBJ", "VP", "V", "PP", "-LRB-", "X", "x"]
FEATS = ["p", "q", "lfreq", "w"]


def norm(g, tol=4):
    return (round(g[1], tol), tuple(tuple(w) for w in g[0]), tuple(sorted((k, round(v, tol)) for k, v in g[2].items() if abs(v) > 1e-6)))


def same(a, b, n, uniq):
    """lists of n-best entries; entries tied with the last one of a full list may differ"""
    if len(a) != len(b):
        return "lists of %d and %d entries" % (len(a), len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if not close(x[1], y[1], 1e-4, 1e-4):
            return "entry %d has scores %r and %r (%r, %r)" % (k, x[1], y[1], x[0], y[0])
    cut = a[-1][1] + 2e-4 * max(1, abs(a[-1][1])) if len(a) >= n else -1e300
    if uniq:
        # which of several equally good derivations represents a translation is open
        a, b = [(x[0], x[1], {}) for x in a], [(x[0], x[1], {}) for x in b]
    ka = sorted(norm(x) for x in a if x[1] > cut)
    kb = sorted(norm(x) for x in b if x[1] > cut)
    # equal up to rounding: match greedily
    pool = list(kb)
    for x in ka:
        for y in pool:
            if x[1] == y[1] and close(x[0], y[0], 1e-4, 1e-3) and [f for f, _ in x[2]] == [f for f, _ in y[2]] and all(
                    close(v, w, 1e-4, 1e-3) for (_, v), (_, w) in zip(x[2], y[2])):
                pool.remove(y)
                break
        else:
            # at the cut the two sides may see different ties
            if abs(x[0] - cut) > 1e-3 * max(1, abs(cut)):
                return "%r is in one list only" % (x,)
    return None


def spread(rng, lines):
    """the same lines, the entries of one source side no longer together (their own order kept or not)"""
    l = list(lines)
    rng.shuffle(l)
    return l


def tree_case(c, i):
    rng = c.sub("tree%d" % i)
    fmt = rng.choice(["penn", "penn", "egret"])
    nfact = rng.choice([1, 1, 1, 2])
    big = rng.random() < 0.3
    syms = rng.sample(SYMS, rng.randint(2, 5))
    voc = VOC if fmt == "penn" else ["a", "b", "c", "the", "dog", "x0", "犬", "0", "-1", "N", "ab", "abc"]
    if fmt == "penn":
        voc = [w for w in voc if w not in "()"]
    sents = []
    for _ in range(rng.randint(1, 4)):
        words = [rng.choice(voc) for _ in range(rng.choice([8, 15, 25]) if big else rng.choice([1, 2, 3, 4, 5, 6]))]
        sents.append((words, mt.gen_tree(rng, words, syms) if fmt == "penn" else mt.gen_forest(rng, words, syms, rng.randint(1, 5))))
    labels = rng.sample(["A", "B", "NP", "C"], 2) if rng.random() < 0.25 else None
    rules = mt.gen_rules(rng, [r for _, r in sents], rng.choice([30, 100, 300]) if big else rng.randint(3, 60), TRG, FEATS, nfact,
                         drop=0 if labels else rng.choice([0, 0.2]), labels=labels, pdown=rng.choice([0.1, 0.3, 0.7]))
    lines = [r.line() for r in rules]
    weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk", "parse"]}
    weights["unmatch_trg"] = -1.5
    pre = "t%d." % i
    n = rng.choice([1, 10, 100, 1000])
    base = dict(weight_vals=weights, binarize="none", in_format=fmt, trg_factors=nfact, debug=0, nbest=n,
                all_unk=rng.choice(["true", "false"]), consider_trg="true" if labels else "false", threads=rng.choice([1, 2]),
                nbest_uniq=rng.choice(["false", "false", "true"]))
    lm = None
    if rng.random() < 0.25 and not big:
        m = arpa.gen(rng, [w for w in TRG + voc if not any(x in w for x in " \t")][:8], 2, 2, closed=True, unk=True)
        base.update(lm_file=c.write(pre + "lm", m.text()), search="cp", pop_limit=1000000, chart_limit=0)
        weights.update(lm=0.5, lmunk=-1.0)
    inp = "".join(mt.penn(r) + "\n" for _, r in sents) if fmt == "penn" else "".join(mt.egret(r, w, j + 1) for j, (w, r) in enumerate(sents))
    shuf = spread(rng, lines)
    runs = [("hash", lines), ("marisa", lines), ("hash", shuf), ("marisa", shuf)]
    compare(c, "tree", i, pre, runs, base, inp, lines, n, len(sents))


def compare(c, kind, i, pre, runs, base, inp, lines, n, nsent):
    got = []
    data = {"input": inp, "runs": []}
    for k, (st, ls) in enumerate(runs):
        kw = dict(base)
        if callable(ls):
            kw.update(ls(k))
        else:
            kw["tm_file"] = c.write(pre + "rt%d" % k, "".join(l + "\n" for l in ls))
        name = pre + "cfg%d" % k
        cf = mt.config(c.write, name, **dict(kw, tm_storage=st, nbest_out=c.path(name + ".nb")))
        data["runs"].append({"storage": st, "config": open(cf).read(), "rules": {f: open(f).read() for f in str(kw["tm_file"]).split("\n")}})
        res = common.run([c.exe["travatar"], "-config_file", cf], inp)
        if not c.expect(res.rc == 0 and not res.timeout, "%s-%s-died" % (kind, st), "decoder with %s storage: %s" % (st, res.why()), data):
            return
        nb = mt.parse_nbest(open(c.path(name + ".nb"), encoding="utf8", errors="surrogateescape").read(), base["trg_factors"])
        out = res.out.split("\n")
        if not c.expect(len(out) == nsent + 1, "%s-%s-lines" % (kind, st), "%d lines for %d sentences" % (len(out) - 1, nsent), data):
            return
        got.append((st, nb, out))
        c.count("decodings with " + st)
    for s in range(nsent):
        ref = got[0][1].get(s, [])
        c.case((kind, i, s), len(ref) > 1, {"entries": len(ref), "storages": [g[0] for g in got]})
        c.count("n-best entries compared", len(ref) * (len(got) - 1))
        for k, (st, nb, out) in enumerate(got[1:]):
            why = same(ref, nb.get(s, []), n, base.get('nbest_uniq') == 'true')
            c.expect(why is None, "%s-%s-differs" % (kind, st), "sentence %d: %s (run 0) against %s (run %d): %s" % (s, got[0][0], st, k + 1, why), data)
            if bool(ref) == bool(nb.get(s, [])) and not ref:
                c.expect(out[s] == got[0][2][s], "%s-%s-line" % (kind, st), "sentence %d: %r against %r" % (s, got[0][2][s], out[s]), data)


def string_case(c, i):
    rng = c.sub("string%d" % i)
    nfact = rng.choice([1, 1, 1, 2])
    voc = rng.sample(["a", "b", "c", "d", "犬", "0", "x0"], 4)
    for _ in range(50):
        sents = [[rng.choice(voc) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6]))] for _ in range(rng.randint(1, 4))]
        if not any(sents):
            continue
        labels = rng.choice([["X", "S"], ["X", "Y", "S"], ["X", "NP", "N", "S"]])
        tl = rng.choice([None, None, ["X", "T"]])
        rules = [hiero.gen_rule(rng, sents, labels, labels[:-1], TRG, FEATS, nfact, rng.choice([1, 2, 3]), tl, kidlabels=labels[:-1]) for _ in range(rng.randint(3, 40))]
        g = hiero.glue("X", "S", nfact)
        cnt = []
        for w in sents:
            r, tf = hiero.forest(w, [(rules + g, 1000)], "X", "S", nfact)
            cnt.append(mt.count_derivs(r, tf) if r is not None else 0)
        if max(cnt) <= 3000:
            break
    else:
        return
    lines = [r.line() for r in rules + g]
    weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk", "glue"]}
    n = rng.choice([1, 20, 4000])
    pre = "s%d." % i
    base = dict(weight_vals=weights, binarize="none", in_format="word", trg_factors=nfact, debug=0, nbest=n, threads=rng.choice([1, 2]),
                pop_limit=10000000, chart_limit=0, search="cp", nbest_uniq=rng.choice(["false", "false", "true"]))
    if rng.random() < 0.5:
        m = arpa.gen(rng, rng.sample(TRG + voc, 6), rng.choice([2, 3]), 2, closed=True, unk=True)
        base["lm_file"] = c.write(pre + "lm", m.text())
        weights.update(lm=rng.choice([0.5, -1.0, 2.0]), lmunk=-1.0)
    inp = "".join(" ".join(w) + "\n" for w in sents)
    shuf = spread(rng, lines)
    runs = [("fsm", lambda k: dict(tm_file=c.write(pre + "rt%d" % k, "".join(l + "\n" for l in lines)), hiero_span_limit="1000")),
            ("fsm", lambda k: dict(tm_file=c.write(pre + "rt%d" % k, "".join(l + "\n" for l in shuf)), hiero_span_limit="1000")),
            ("cfg", lines), ("cfg", shuf)]
    compare(c, "string", i, pre, runs, base, inp, lines, n, len(sents))


def body(c):
    c.rule = "a sentence counts when it has more than one n-best entry; identity = (kind, case, sentence)"
    c.assumptions = ["the chart decoder has no span limits, so the finite-state matcher is run with limits that do not bind",
                     "one rule file per grammar (the known finding of C06 is about the order of several)"]
    c.exe = common.build("asan", bins=["travatar"])
    common.pmap(lambda i: tree_case(c, i), range(c.n(250, 3000)))
    common.pmap(lambda i: string_case(c, i), range(c.n(250, 3000)))


if __name__ == "__main__":
    common.main("C05", body)
