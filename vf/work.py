"""Decoding workloads of many sentences for the concurrency checks."""
import mt, hiero, arpa

VOC = ["a", "b", "c", "the", "dog", "x0", "犬", "0", "N"]
TRG = ["A", "B", "C", "la", "42", "犬", "x1"]
SYMS = ["NP", "N", "NP-SBJ", "VP", "V", "PP", "X"]
FEATS = ["p", "q", "lfreq", "w"]
LENS = [1, 1, 2, 3, 4, 5, 7, 9, 14]


def job(c, rng, pre, nsent, new_words=True, heavy=1.0):
    """dict(kind, cfg (config keys), inp, nsent, nfact); the same job can be run with any number of threads"""
    search = rng.choice(["cp", "inc"])
    kind = rng.choice(["penn", "penn", "egret", "fsm", "fsm", "cfg"])
    nfact = rng.choice([1, 1, 2])
    weights = {f: rng.randint(-8, 8) / 4.0 for f in FEATS + ["unk", "parse", "glue"]}
    cfg = dict(weight_vals=weights, trg_factors=nfact, debug=0, nbest=rng.choice([1, 3, 10, 50]), nbest_uniq=rng.choice(["false", "true"]),
               buffer=rng.choice(["true", "false"]), binarize="none")
    # in the word list some sentences bring words of their own, which the workers' symbol table has to take in
    def sent(k):
        w = [rng.choice(VOC) for _ in range(max(1, int(rng.choice(LENS) * heavy)))]
        if new_words and rng.random() < 0.5:
            w[rng.randrange(len(w))] = "new%d" % rng.randrange(10 ** 6)
        return w
    if kind in ("penn", "egret"):
        syms = rng.sample(SYMS, rng.randint(2, 5))
        sents = []
        for k in range(nsent):
            w = sent(k)
            sy = syms + (["L%d" % rng.randrange(50)] if rng.random() < 0.5 else [])
            sents.append((w, mt.gen_tree(rng, w, sy) if kind == "penn" else mt.gen_forest(rng, w, sy, rng.randint(1, 5))))
        labels = rng.sample(["A", "B", "NP", "C"], 2) if rng.random() < 0.2 else None
        rules = mt.gen_rules(rng, [r for _, r in sents[:max(1, nsent // 2)]], rng.choice([10, 50, 200]), TRG, FEATS, nfact,
                             drop=0 if labels or search == "inc" else 0.1, labels=labels, pdown=rng.choice([0.1, 0.3]))
        lines = [[r.line() for r in rules]]
        inp = "".join(mt.penn(r) + "\n" for _, r in sents) if kind == "penn" else "".join(mt.egret(r, w, j + 1) for j, (w, r) in enumerate(sents))
        cfg.update(in_format=kind, tm_storage=rng.choice(["hash", "marisa"]), binarize=rng.choice(["none", "left", "right", "leftrp", "rightrp", "cky"]),
                   all_unk=rng.choice(["true", "false"]), consider_trg="true" if labels else "false")
        if labels:
            weights["unmatch_trg"] = -1.5
    else:
        sents = [sent(k) for k in range(nsent)]
        labels = rng.choice([["X", "S"], ["X", "Y", "S"]])
        short = [s[:5] for s in sents[:max(1, nsent // 2)]]
        rules = [hiero.gen_rule(rng, short, labels, labels[:-1], TRG, FEATS, nfact, rng.choice([1, 2]), None, kidlabels=labels[:-1])
                 for _ in range(rng.choice([5, 15, 40]))]
        g = hiero.glue("X", "S", nfact)
        if kind == "fsm" and rng.random() < 0.5:
            lines = [[r.line() for r in rules], [r.line() for r in g]]
            cfg["hiero_span_limit"] = "%d\n1000" % rng.choice([3, 6])
        else:
            lines = [[r.line() for r in rules + g]]
            cfg["hiero_span_limit"] = rng.choice(["6", "1000"])
        inp = "".join(" ".join(w) + "\n" for w in sents)
        cfg.update(in_format="word", tm_storage=kind)
    cfg["tm_file"] = "\n".join(c.write(pre + "rt%d" % k, "".join(l + "\n" for l in ls)) for k, ls in enumerate(lines))
    if kind == "cfg" or rng.random() < 0.6:
        multi = rng.choice(["joint", "consec"])
        nlm = 1 if kind == "cfg" or (search == "inc" and multi == "joint") else rng.choice([1, 1, 2])
        fs = []
        for k in range(nlm):
            m = arpa.gen(rng, rng.sample(TRG + VOC, rng.randint(3, 8)), rng.choice([2, 2, 3]), rng.choice([1, 3]), closed=True, unk=True)
            fs.append(c.write(pre + "lm%d" % k, m.text()) + ("|lm_feat=lm%d,lm_unk_feat=lmu%d" % (k, k) if k else ""))
            weights["lm%d" % k if k else "lm"] = rng.choice([1.0, 0.5])
            weights["lmu%d" % k if k else "lmunk"] = -1.0
        cfg.update(lm_file=" ".join(fs), search=search, lm_multi_type=multi, pop_limit=rng.choice([5, 50, 500]), chart_limit=rng.choice([10, 100]))
    return dict(kind=kind, cfg=cfg, inp=inp, nsent=nsent, nfact=nfact)
