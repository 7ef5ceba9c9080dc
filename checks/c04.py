"""C04: tree/forest decoding without a language model against exhaustive enumeration of the derivations."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt
from judge import judge_sentence, judge_forest, parse_trace

VOC = ["a", "b", "c", "the", "dog", "ran", "x0", "@", "犬", "&quot;", "\"", "0", "-1", "|", "[1,2]"]
TRG = ["A", "B", "C", "la", "chien", "42", "@", "x1", "\"", "犬", "|"]
SYMS = ["NP", "VP", "PP", "N", "V", "-LRB-"]
FEATS = ["p", "q", "lfreq", "w"]


def instance(rng, fmt, nfact, dyadic, labels=None):
    while True:
        syms = rng.sample(SYMS, rng.randint(2, 4))
        sents = []
        for _ in range(rng.randint(2, 6)):
            n = rng.choice([1, 1, 2, 3, 4, 5, 6])
            words = [rng.choice(VOC if fmt == "penn" else VOC[:-2]) for _ in range(n)]
            root = mt.gen_tree(rng, words, syms) if fmt == "penn" else mt.gen_forest(rng, words, syms, rng.randint(1, 5))
            sents.append((words, root))
        nrules = rng.randint(3, 45)
        if fmt == "penn" and rng.random() < 0.1:
            # more than ten variables in one rule: a tree with many children and a rule for its top
            words = [rng.choice(["a", "b", "c", "the", "dog"]) for _ in range(rng.randint(11, 14))]
            root = mt.Node("S", (0, len(words)))
            root.edges = [mt.Edge([mt.Node(rng.choice(syms), (k, k + 1)) for k in range(len(words))])]
            for k, t in enumerate(root.edges[0].tails):
                t.edges = [mt.Edge([mt.Node(words[k], (k, k + 1), True)])]
            sents = sents[:2] + [(words, root)]
            rules = mt.gen_rules(rng, [r for _, r in sents], rng.randint(2, 9), TRG, FEATS, nfact, labels=labels, dyadic=dyadic, pdown=0.05)
            wide = mt.sample_fragment(rng, root, 0.0)
            order = list(range(len(wide[1])))
            rng.shuffle(order)
            trg = [([(o, (labels and rng.choice(labels)) or wide[1][o]) for o in order], (labels and rng.choice(labels)) or "S") for _ in range(nfact)]
            rules.append(mt.Rule(wide[0], trg, {FEATS[0]: 1.0}))
            nrules = 0
        rules = rules if not nrules else mt.gen_rules(rng, [r for _, r in sents], nrules, TRG, FEATS, nfact,
                             drop=0 if labels else rng.choice([0, 0, 0.2]), labels=labels, dyadic=dyadic, pdown=rng.choice([0.2, 0.5, 0.8]))
        if fmt == "egret":
            weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk"]}
            weights["parse"] = rng.choice([0.0, 1.0, 0.5, -0.7])
        else:
            weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk"]}
        weights["unmatch_trg"] = rng.randint(-8, 2) / 4.0
        if not dyadic:
            weights = {f: round(rng.uniform(-2, 2), 4) for f in weights}
        return sents, rules, weights


def one(c, i):
    rng = c.sub("case%d" % i)
    fmt = rng.choice(["penn", "penn", "egret"])
    nfact = rng.choice([1, 1, 1, 2])
    dyadic = rng.random() < 0.6
    all_unk = rng.random() < 0.3
    storage = rng.choice(["hash", "marisa"])
    ctrg = rng.random() < 0.25
    labels = rng.sample(["A", "B", "NP", "C"], 2) if ctrg else None
    for _ in range(50):
        sents, rules, weights = instance(rng, fmt, nfact, dyadic, labels)
        if ctrg:
            rtf = [mt.translation_forest_trg(root, words, rules, nfact, all_unk) for words, root in sents]
        else:
            rtf = [(root, mt.translation_forest(root, words, rules, nfact, all_unk)) for words, root in sents]
        cnts = [mt.count_derivs(r, tf) for r, tf in rtf]
        if max(cnts) <= 4000:
            break
    else:
        return
    derivs = [mt.enumerate_derivs(r, tf, weights, nfact) for r, tf in rtf]
    uniq = rng.random() < 0.3
    want_nbest = rng.random() < 0.85
    n = rng.choice([max(cnts) + 10, max(cnts) + 10, 1, 2, 5, 20])
    tree = want_nbest and rng.random() < 0.3
    trim = rng.choice([0, 0, 0, n])
    stream = rng.random() < 0.15
    pre = "c%d." % i
    kw = dict(tm_file=c.write(pre + "rt", "".join(r.line() + "\n" for r in rules)), tm_storage=storage, weight_vals=weights,
              binarize="none", in_format=fmt, trg_factors=nfact, debug=rng.choice([0, 1]), all_unk="true" if all_unk else "false",
              nbest=n, nbest_uniq="true" if uniq else "false", threads=rng.choice([1, 1, 1, 3]), forest_out=c.path(pre + "fo"),
              trace_out=c.path(pre + "tr"))
    if want_nbest:
        kw["nbest_out"] = c.path(pre + "nb")
    kw["consider_trg"] = "true" if ctrg else "false"
    kw["nbest_tree"] = "true" if tree else "false"
    kw["forest_nbest_trim"] = trim
    cfg = mt.config(c.write, pre + "cfg", **kw)
    if fmt == "penn":
        inp = "".join(mt.penn(r) + "\n" for _, r in sents)
    else:
        inp = "".join(mt.egret(r, w, j + 1) for j, (w, r) in enumerate(sents))
    data = {"config": open(cfg).read(), "rules": [r.line() for r in rules], "input": inp}
    res = common.run([c.exe["travatar"], "-config_file", cfg], inp)
    key = "%s-%s" % (fmt, storage)
    if not c.expect(res.rc == 0 and not res.timeout, key + "-died", "decoder " + res.why(), data):
        return
    rd = lambda x: open(c.path(pre + x), encoding="utf8", errors="surrogateescape").read()
    out = res.out.split("\n")
    if not c.expect(len(out) == len(sents) + 1 and out[-1] == "", key + "-lines", "%d output lines for %d sentences" % (len(out) - 1, len(sents)), data):
        return
    try:
        nb = mt.parse_nbest(rd("nb"), nfact) if want_nbest else {}
        tr = parse_trace(rd("tr"), want_nbest)
        forests = [json.loads(l) for l in rd("fo").split("\n") if l]
    except ValueError as e:
        c.violation(key + "-format", str(e), data)
        return
    if not want_nbest:
        n = 1
    c.expect(len(forests) == len(sents), key + "-forestlines", "%d forests for %d sentences" % (len(forests), len(sents)), data)
    for s, (ds, cnt) in enumerate(zip(derivs, cnts)):
        ds = sorted(ds, key=lambda d: -d.score)
        got = nb.get(s, [])
        c.case((fmt, storage, i, s), len(ds) > 1, {"input": inp.split("\n")[s] if fmt == "penn" else sents[s][0], "derivations": len(ds), "best": ds[0].score})
        c.count("derivations enumerated", len(ds))
        c.count("n-best entries judged", len(got))
        one_words = [x.split() for x in (out[s].split(" |COL| ") if nfact > 1 else [out[s]])]
        if not judge_sentence(c, key, s, ds, n, uniq, want_nbest, got, one_words, tr, data, tree, not any(w.startswith("x") for w in sents[s][0])):
            continue
        # the forest printed carries the same derivations
        if s < len(forests):
            judge_forest(c, key, forests[s], sents[s], ds, weights, nfact, data, trim, got if not uniq else None)


def body(c):
    c.rule = "a sentence counts when it has more than one derivation; identity = (format, storage, case, sentence)"
    c.assumptions = ["variables of a rule's source side are numbered left to right", "numbers are printed with 6 digits, compared to 2e-5"]
    c.exe = common.build("asan", bins=["travatar"])
    common.pmap(lambda i: one(c, i), range(c.n(450, 4000)))


common.main("C04", body)
