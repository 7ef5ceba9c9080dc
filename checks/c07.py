"""C07: decoding with language models against enumeration of all derivations, each scored by an independent evaluator."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, hiero, arpa
from common import close
from judge import dkey, parse_trace

VOC = ["a", "b", "c", "d"]
TRG = ["A", "B", "C", "D", "犬", "E"]
FEATS = ["p", "q", "w"]
SYMS = ["NP", "VP", "PP", "S"]


def tree_instance(rng, fmt, nfact):
    syms = rng.sample(SYMS, rng.randint(2, 3))
    sents = []
    for _ in range(rng.randint(1, 4)):
        words = [rng.choice(VOC) for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))]
        sents.append((words, mt.gen_tree(rng, words, syms) if fmt == "penn" else mt.gen_forest(rng, words, syms, rng.randint(1, 4))))
    rules = mt.gen_rules(rng, [r for _, r in sents], rng.randint(5, 40), TRG, FEATS, nfact, pdown=rng.choice([0.1, 0.3, 0.6]))
    fs = []
    for w, r in sents:
        fs.append((r, mt.translation_forest(r, w, rules, nfact)))
    inp = "".join(mt.penn(r) + "\n" for _, r in sents) if fmt == "penn" else "".join(mt.egret(r, w, j + 1) for j, (w, r) in enumerate(sents))
    return [w for w, _ in sents], fs, [[r.line() for r in rules]], inp, {}


def hiero_instance(rng, nfact, cfg=False):
    sents = [[rng.choice(VOC) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))] for _ in range(rng.randint(1, 4))]
    if not any(sents):
        sents[0] = ["a"]
    labels = rng.choice([["X", "S"], ["X", "Y", "S"]])
    rules = [hiero.gen_rule(rng, sents, labels, labels[:-1], TRG, FEATS, nfact, rng.choice([1, 2, 3]), None, kidlabels=labels[:-1]) for _ in range(rng.randint(3, 20))]
    g = hiero.glue("X", "S", nfact)
    gr = [(rules, 20), (g, 1000)]
    ff = []
    if cfg:
        gr = [(rules + g, 1000)]
    fs = [hiero.forest(w, gr, "X", "S", nfact) for w in sents]
    return sents, fs, [[r.line() for r in rs] for rs, _ in gr], "".join(" ".join(w) + "\n" for w in sents), {"hiero_span_limit": "\n".join(str(l) for _, l in gr)}


def one(c, i):
    rng = c.sub("case%d" % i)
    kind = rng.choice(["penn", "egret", "fsm", "fsm"] + ["cfg"])
    nfact = rng.choice([1, 1, 1, 2])
    for _ in range(80):
        if kind in ("penn", "egret"):
            sents, fs, grams, inp, extra = tree_instance(rng, kind, nfact)
        else:
            sents, fs, grams, inp, extra = hiero_instance(rng, nfact, kind == "cfg")
        cnts = [mt.count_derivs(r, tf) if r is not None else 0 for r, tf in fs]
        if max(cnts) <= 600 and max(cnts) > 3:
            break
    else:
        return
    search = rng.choice(["cp", "inc"]) if kind != "cfg" else "cfg"
    multi = rng.choice(["joint", "consec"])
    nlm = rng.choice([1, 1, 2, 3]) if search == "cp" or (search == "inc" and multi == "consec") else 1
    lms = []
    weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk", "glue"]}
    pre = "c%d." % i
    for k in range(nlm):
        voc = rng.sample(TRG + VOC, rng.randint(2, 8))
        # n-grams whose suffix is missing fit only the trie formats
        closed = rng.random() < 0.8
        m = arpa.gen(rng, voc, rng.choice([2, 2, 3, 3, 4]), rng.choice([1, 2, 4]), closed=closed, unk=rng.random() < 0.8)
        f = c.write(pre + "lm%d" % k, m.text())
        if not closed:
            b = common.run([c.bb["build_binary"], "-s", "trie", f, f + ".bin"])
            if not c.expect(b.rc == 0, "build-binary", "build_binary " + b.why(), {"arpa": m.text()}):
                return
            f += ".bin"
            c.count("models with missing suffixes")
        elif rng.random() < 0.3:
            typ = rng.choice(["probing", "trie", "trie-a"])
            b = common.run([c.bb["build_binary"], "-s"] + (["-a", "8"] if typ == "trie-a" else []) + ["trie" if typ != "probing" else "probing", f, f + ".bin"])
            if b.rc == 0:
                f += ".bin"
                c.count("binary models")
        fac = rng.randrange(nfact)
        nm = "lm" if k == 0 and rng.random() < 0.6 else "lm%d" % k
        par = []
        if fac:
            par.append("factor=%d" % fac)
        if nm != "lm":
            par.append("lm_feat=" + nm)
        un = "lmunk"
        if nm != "lm" and (nlm > 1 or rng.random() < 0.5):
            un = nm + "unk"
            par.append("lm_unk_feat=" + un)
        weights[nm] = rng.choice([1.0, 0.5, 2.0, 0.25, 1.5]) if search != "cp" else rng.choice([1.0, 0.5, 2.0, -1.0, 0.0])
        weights[un] = rng.choice([0.0, -1.0, -5.0, 2.0])
        lms.append((f, fac, nm, un, par, m))
    derivs = []
    for r, tf in fs:
        ds = mt.enumerate_derivs(r, tf, weights, nfact) if r is not None else []
        for d in ds:
            for f, fac, nm, un, par, m in lms:
                lp, u = m.sentence(d.trg[fac])
                d.feats = mt.addf(d.feats, {nm: lp, un: float(u)})
            d.score = sum(weights.get(k, 0.0) * v for k, v in d.feats.items())
        derivs.append(ds)
    exact = rng.random() < 0.7
    pop = 10000000 if exact else rng.choice([1, 2, 3, 5, 10])
    chart = 0 if exact else rng.choice([0, 1, 2, 5])
    if search == "cfg" and chart == 0:
        chart = 10000000
    n = rng.choice([1, 5, 2000])
    uniq = rng.random() < 0.2
    tms = [c.write(pre + "rt%d" % k, "".join(l + "\n" for l in g)) for k, g in enumerate(grams)]
    storage = {"fsm": "fsm", "cfg": "cfg"}.get(kind) or rng.choice(["hash", "marisa"])
    cfg = mt.config(c.write, pre + "cfg", tm_file="\n".join(tms), tm_storage=storage, weight_vals=weights, binarize="none",
                    in_format=kind if kind in ("penn", "egret") else "word", trg_factors=nfact, debug=0, nbest=n, nbest_uniq="true" if uniq else "false",
                    nbest_out=c.path(pre + "nb"), trace_out=c.path(pre + "tr"), search="cp" if search == "cfg" else search, lm_multi_type=multi,
                    lm_file=" ".join(f + ("|" + ",".join(par) if par else "") for f, _, _, _, par, _ in lms), pop_limit=pop, chart_limit=chart,
                    threads=rng.choice([1, 1, 2]), **extra)
    data = {"config": open(cfg).read(), "grammars": grams, "input": inp, "arpa": [m.text() for *_, m in lms]}
    res = common.run([c.exe["travatar"], "-config_file", cfg], inp)
    key = "%s-%s" % (kind if kind in ("fsm", "cfg") else "tree", search)
    if not c.expect(res.rc == 0 and not res.timeout, key + "-died", "decoder " + res.why(), data):
        return
    out = res.out.split("\n")
    if not c.expect(len(out) == len(sents) + 1 and out[-1] == "", key + "-lines", "%d output lines for %d sentences" % (len(out) - 1, len(sents)), data):
        return
    rd = lambda x: open(c.path(pre + x), encoding="utf8", errors="surrogateescape").read()
    try:
        nb = mt.parse_nbest(rd("nb"), nfact)
        tr = parse_trace(rd("tr"), True)
    except ValueError as e:
        c.violation(key + "-format", str(e), data)
        return
    for s, ds in enumerate(derivs):
        judge(c, key, i, s, sorted(ds, key=lambda d: -d.score), nb.get(s, []), out[s], tr, n, uniq, exact, nfact, weights, data, search, len(lms), kind)


def feats_ok(a, b, tol):
    for k in set(a) | set(b):
        if not close(a.get(k, 0.0), b.get(k, 0.0), tol, tol):
            return False
    return True


def judge(c, key, i, s, ds, got, line, tr, n, uniq, exact, nfact, weights, data, search, nlm, kind):
    tol = 2e-4 if search == "inc" else 5e-5
    c.case((i, s), len(ds) > 1, {"derivations": len(ds), "search": search, "exact": exact})
    c.count("derivations enumerated and scored", len(ds))
    c.count("hypotheses judged", len(got))
    if not ds:
        c.expect(not got and line == "", key + "-underivable", "sentence %d cannot be derived but gives %r" % (s, line), data)
        return
    if kind == "cfg" and not exact and not got:
        c.count("chart searches that pruned everything")
        return
    if not c.expect(got, key + "-none", "sentence %d has %d derivations but no n-best entry" % (s, len(ds)), data):
        return
    one_words = [x.split() for x in ((line + " ").split(" |COL| ") if nfact > 1 else [line])]
    c.expect(one_words == got[0][0], key + "-onebest", "1-best %r is not the first n-best entry %r" % (one_words, got[0][0]), data)
    pool = {}
    for d in ds:
        pool.setdefault(dkey(d), []).append(d)
    last = None
    seen = set()
    for k, g in enumerate(got):
        sc = sum(weights.get(a, 0.0) * v for a, v in g[2].items())
        if not c.expect(close(g[1], sc, tol, tol * 5), key + "-sum", "sentence %d entry %d has score %r, its features give %r" % (s, k, g[1], sc), data):
            return
        if last is not None and not c.expect(g[1] <= last + max(tol, 2e-5 * abs(last)), key + "-order", "sentence %d entry %d has score %r after %r" % (s, k, g[1], last), data):
            return
        last = g[1]
        wk = (tuple(tuple(w) for w in g[0]),)
        if uniq and not c.expect(wk not in seen, key + "-dup", "duplicate translation %r under nbest_uniq" % (wk,), data):
            return
        seen.add(wk)
        t = tr.get((s, k), [])
        t = [x for x in t if x[1] != ""] if kind != "cfg" else None
        hit = None
        for d in pool.get(wk, []):
            if feats_ok(mt.nz(g[2], 1e-5), mt.nz(d.feats), tol) and (t is None or sorted(x[:3] for x in t) == sorted((a, " ".join(b.split()), " ".join(x.split())) for a, b, x, _ in d.trace)):
                hit = d
                break
        if hit is None:
            near = [d.feats for d in pool.get(wk, [])][:3]
            c.violation(key + "-deriv", "sentence %d entry %d %r is not a derivation with true scores, or is listed too often; derivations of that translation: %r" % (s, k, g, near), data)
            return
        pool[wk].remove(hit)
    if not exact:
        c.count("pruned searches")
        return
    c.count("exact searches")
    if uniq:
        best = {}
        for d in ds:
            best.setdefault(dkey(d), d)
        want = sorted(best.values(), key=lambda d: -d.score)
    else:
        want = ds
    want = want[:n]
    c.expect(close(got[0][1], want[0].score, tol, tol * 5), key + "-best", "sentence %d: best score found %r (%r), the best derivation has %r (%r)" % (
        s, got[0][1], got[0][0], want[0].score, want[0].trg), data)
    if c.expect(len(got) == len(want), key + "-count", "sentence %d: %d n-best entries, %d derivations expected" % (s, len(got), len(want)), data):
        for k, (g, w) in enumerate(zip(got, want)):
            if not c.expect(close(g[1], w.score, tol, tol * 5), key + "-nth", "sentence %d entry %d has score %r, the %d-th best derivation has %r" % (s, k, g[1], k + 1, w.score), data):
                break


def body(c):
    c.rule = "a sentence counts when it has more than one derivation; identity = (case, sentence)"
    c.assumptions = ["every variable of a rule's source side appears in its target side",
                     "scores are compared to 5e-5 (2e-4 for the incremental search, which works in single precision)"]
    c.exe = common.build("asan", bins=["travatar"])
    c.bb = common.build("asan", kenlm_bins=["build_binary"])
    common.pmap(lambda i: one(c, i), range(c.n(1000, 10000)))


common.main("C07", body)
