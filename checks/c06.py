"""C06: decoding of plain sentences with synchronous grammars against an independent exhaustive chart."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, hiero
from judge import judge_sentence, judge_forest, parse_trace

VOC = ["a", "b", "c", "d", "dog", "犬", "x0", "@", "&quot;", "0", "|", "[1,2]", "\""]
TRG = ["A", "B", "C", "la", "chien", "42", "犬", "x1", "@"]
FEATS = ["p", "q", "w"]


def instance(rng, nfact, dyadic):
    voc = rng.sample(VOC, rng.choice([2, 3, 4, 6]))
    sents = []
    for _ in range(rng.randint(2, 5)):
        sents.append([rng.choice(voc) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6]))])
    labels = rng.choice([["X", "S"], ["X", "S"], ["X", "Y", "S"], ["X", "NP", "VP", "S"]])
    low = labels[:-1]
    usesame = rng.random() < 0.75
    tlabels = None if usesame else ["X", "S"]
    if not any(sents):
        sents[0] = [voc[0]]
    mode = rng.choice(["glue", "glue", "gluesame", "free"])
    typed = rng.random() < 0.3
    heads = low if mode != "free" else labels
    # a target label per rule different from the source label can hide unary cycles: keep unary rules to equal labels then
    rules = [hiero.gen_rule(rng, sents, labels, heads, TRG, FEATS, nfact, rng.choice([1, 2, 3]), tlabels if typed else None,
                            kidlabels=low if mode != "free" else labels, dyadic=dyadic, unary_ok=not typed) for _ in range(rng.randint(2, 22))]
    if rng.random() < 0.15:
        rules += [rng.choice(rules)]
    g = hiero.glue("X", "S", nfact)
    if rng.random() < 0.3:
        g += hiero.glue(low[-1], "S", nfact)
    lim = rng.choice([1, 2, 3, 20, 20, 20])
    unk = rng.choice(["X", "X", "X", "X", labels[0], "S", "UNK"])
    if mode == "glue":
        grammars = [(rules, lim), (g, rng.choice([1000, 1000, 20]))]
    elif mode == "gluesame":
        rs = rules + g
        rng.shuffle(rs)
        grammars = [(rs, lim)]
    else:
        grammars = [(rules, lim)]
    seen = set()
    gs = []
    for rs, l in grammars:
        gs.append((rs, l))
    return sents, gs, unk, "S"


def unary_instance(rng, nfact, dyadic):
    """grammars with many labels and chains of unary rules"""
    voc = rng.sample(VOC, rng.choice([2, 3]))
    sents = [[rng.choice(voc) for _ in range(rng.choice([1, 2, 2, 3, 4]))] for _ in range(rng.randint(2, 4))]
    low = ["X"] + rng.sample(["A", "B", "C", "D", "E", "NP"], rng.randint(3, 5))
    rng.shuffle(low)
    labels = low + ["S"]
    feat = lambda: {rng.choice(FEATS): rng.randint(1, 12) / 4.0}
    rules = []
    dens = rng.choice([0.25, 0.5, 0.9])
    for a in range(len(labels)):
        for b in range(a + 1, len(labels)):
            if rng.random() < (dens if b > a + 1 else 0.8) / (2.0 if b == len(labels) - 1 else 1.0):
                rules.append(hiero.HRule([0], [labels[a]], labels[b], [([(0, labels[a])] + ([rng.choice(TRG)] if rng.random() < 0.3 else []), labels[b])] * nfact, feat()))
    for _ in range(rng.randint(2, 8)):
        rules.append(hiero.gen_rule(rng, sents, labels, [rng.choice(low[:2]), "S"], TRG, FEATS, nfact, 2, kidlabels=low, dyadic=dyadic, unary_ok=False))
    for _ in range(rng.randint(1, 3)):
        rules.append(hiero.gen_rule(rng, sents, labels, low[:2], TRG, FEATS, nfact, 0, words_only=True, dyadic=dyadic))
    rng.shuffle(rules)
    return sents, [(rules, 20)], rng.choice(["X", labels[0]]), "S"


def long_instance(rng, nfact, dyadic):
    """sentences longer than the span limits, most of whose words differ"""
    voc = ["w%d" % k for k in range(40)] + VOC
    n = rng.choice([8, 11, 13, 17, 22, 26])
    sents = [rng.sample(voc, n)]
    for _ in range(rng.choice([0, 0, 2])):
        sents[0][rng.randrange(n)] = sents[0][rng.randrange(n)]
    if rng.random() < 0.5:
        sents.append(rng.sample(sents[0], rng.randint(1, min(n, 12))))
    labels = rng.choice([["X", "S"], ["X", "Y", "S"]])
    rules = [hiero.gen_rule(rng, sents, labels, labels[:-1], TRG, FEATS, nfact, rng.choice([0, 1, 1, 2]), kidlabels=labels[:-1], dyadic=dyadic,
                            unary_ok=False) for _ in range(rng.randint(3, 14))]
    # a rule whose variable has to be long
    w = sents[0]
    b = rng.randint(0, 2)
    e = rng.randint(b + 3, n)
    rules.append(hiero.HRule([w[b], 0, w[e - 1]], ["X"], "X", [([TRG[0], (0, "X")], "X")] * nfact, {"p": 1.0}))
    g = hiero.glue("X", "S", nfact)
    if rng.random() < 0.3:      # (in the first file: see the known finding about the order of files)
        rules += [hiero.HRule([0, 1], ["X", "X"], "X", [([(1, "X"), (0, "X")], "X")] * nfact, {"w": 0.5})]
    return sents, [(rules, rng.choice([2, 5, 9, 10, 20, 20])), (g, rng.choice([1000, 1000, 20, 10]))], "X", "S"


def one(c, i):
    rng = c.sub("case%d" % i)
    long = rng.random() < 0.12
    unary = rng.random() < 0.2
    nfact = rng.choice([1, 1, 1, 2])
    dyadic = rng.random() < 0.6
    delunk = rng.random() < 0.25
    for _ in range(60):
        sents, grammars, unk, root = (long_instance if long else unary_instance if unary else instance)(rng, nfact, dyadic)
        fs = [hiero.forest(w, grammars, unk, root, nfact, delunk) for w in sents]
        try:
            cnts = [mt.count_derivs(r, tf) if r is not None else 0 for r, tf in fs]
        except RecursionError:
            continue
        if max(cnts) <= 3000 and (max(cnts) > 1 or rng.random() < 0.2):
            break
    else:
        return
    weights = {f: (rng.randint(-8, 8) / 4.0 if dyadic else round(rng.uniform(-2, 2), 4)) for f in FEATS + ["unk", "glue"]}
    derivs = [mt.enumerate_derivs(r, tf, weights, nfact) if r is not None else [] for r, tf in fs]
    uniq = rng.random() < 0.3 and not delunk
    want_nbest = rng.random() < 0.85
    n = rng.choice([max(cnts) + 10, max(cnts) + 10, 1, 2, 5, 20])
    trim = rng.choice([0, 0, 0, n])
    pre = "c%d." % i
    tms = [c.write(pre + "rt%d" % k, "".join(r.line() + "\n" for r in rs)) for k, (rs, _) in enumerate(grammars)]
    kw = dict(tm_file="\n".join(tms), tm_storage="fsm", weight_vals=weights, binarize="none", in_format="word", trg_factors=nfact, debug=0,
              hiero_span_limit="\n".join(str(l) for _, l in grammars), root_symbol=root, unk_symbol=unk, delete_unknown="true" if delunk else "false",
              nbest=n, nbest_uniq="true" if uniq else "false", threads=rng.choice([1, 1, 1, 3]), forest_out=c.path(pre + "fo"), trace_out=c.path(pre + "tr"),
              forest_nbest_trim=trim)
    if want_nbest:
        kw["nbest_out"] = c.path(pre + "nb")
    else:
        n = 1
    cfg = mt.config(c.write, pre + "cfg", **kw)
    inp = "".join(" ".join(w) + "\n" for w in sents)
    data = {"config": open(cfg).read(), "grammars": [[r.line() for r in rs] for rs, _ in grammars], "input": inp}
    res = common.run([c.exe["travatar"], "-config_file", cfg], inp)
    key = "fsm"
    if not c.expect(res.rc == 0 and not res.timeout, key + "-died", "decoder " + res.why(), data):
        return
    rd = lambda x: open(c.path(pre + x), encoding="utf8", errors="surrogateescape").read()
    out = res.out.split("\n")
    if not c.expect(len(out) == len(sents) + 1 and out[-1] == "", key + "-lines", "%d output lines for %d sentences" % (len(out) - 1, len(sents)), data):
        return
    try:
        nb = mt.parse_nbest(rd("nb"), nfact) if want_nbest else {}
        tr = parse_trace(rd("tr"), want_nbest)
        forests = [json.loads(l) for l in rd("fo").split("\n") if l]
    except ValueError as e:
        c.violation(key + "-format", str(e), data)
        return
    c.expect(len(forests) == len(sents), key + "-forestlines", "%d forests for %d sentences" % (len(forests), len(sents)), data)
    for s, (ds, cnt) in enumerate(zip(derivs, cnts)):
        ds = sorted(ds, key=lambda d: -d.score)
        got = nb.get(s, [])
        c.case((i, s), len(ds) > 1, {"input": sents[s], "derivations": len(ds)})
        c.count("derivations enumerated", len(ds))
        c.count("n-best entries judged", len(got))
        if not ds:
            c.count("underivable sentences")
            c.expect(out[s] == "" and not got and (s, 0) not in tr, key + "-underivable",
                     "sentence %d cannot be derived but gives %r, n-best %r" % (s, out[s], got[:2]), data)
            if s < len(forests):
                c.expect(not forests[s].get("nodes"), key + "-underivable", "sentence %d cannot be derived but has forest %r" % (s, forests[s]), data)
            continue
        one_words = [x.split() for x in ((out[s] + " ").split(" |COL| ") if nfact > 1 else [out[s]])]
        if not judge_sentence(c, key, s, ds, n, uniq, want_nbest, got, one_words, tr, data):
            continue
        if s < len(forests):
            judge_forest(c, key, forests[s], sents[s], ds, weights, nfact, data, trim)


CYCLES = [["X", "X"], ["X", "Y", "X"], ["X", "Y", "Z", "X"], ["A", "X", "Y", "Z", "X"]]


def cycles(c, i):
    """grammars with unary cycles have no finite set of derivations and must be refused"""
    rng = c.sub("cyc%d" % i)
    path = CYCLES[i % len(CYCLES)]
    rules = [hiero.HRule([0], [a], b, [([(0, a)], b)], {"p": 1.0}) for a, b in zip(path, path[1:])]
    rules += [hiero.HRule(["a"], [], "X", [(["A"], "X")], {"p": 1.0})] + hiero.glue("X", "S")
    rng.shuffle(rules)
    rt = c.write("cyc%d.rt" % i, "".join(r.line() + "\n" for r in rules))
    cfg = mt.config(c.write, "cyc%d.cfg" % i, tm_file=rt, tm_storage="fsm", weight_vals={"p": 1.0}, binarize="none", in_format="word", trg_factors=1)
    res = common.run([c.exe["travatar"], "-config_file", cfg], "a a\n", timeout=60)
    c.case(("cycle", tuple(path)), True)
    c.count("cyclic grammars")
    c.expect(res.diagnosed and "nary cycle" in res.err, "fsm-cycle", "cyclic grammar %r not refused: %s" % (path, res.why()),
             {"rules": [r.line() for r in rules]})


def fileorder(c):
    """the same grammar with its two files named in either order"""
    rules = [hiero.HRule(["a"], [], "X", [(["A"], "X")], {"p": 1.0}), hiero.HRule(["a", 0], ["X"], "X", [(["B", (0, "X")], "X")], {"p": 1.0})]
    g = hiero.glue("X", "S")
    f = {}
    for nm, rs in (("rules", rules), ("glue", g)):
        f[nm] = c.write("fo." + nm, "".join(r.line() + "\n" for r in rs))
    outs = []
    for k, order in enumerate((["rules", "glue"], ["glue", "rules"])):
        cfg = mt.config(c.write, "fo%d.cfg" % k, tm_file="\n".join(f[o] for o in order), hiero_span_limit="20\n20", tm_storage="fsm",
                        weight_vals={"p": 1.0, "glue": -1.0}, binarize="none", in_format="word", trg_factors=1)
        res = common.run([c.exe["travatar"], "-config_file", cfg], "a a\n", timeout=60)
        outs.append(res.out)
    c.case(("fileorder",), True)
    c.expect(outs[0] == "B A\n", "fsm-layered", "grammar files in the order rules, glue give %r" % outs[0])
    c.expect(outs[1] == outs[0], "fsm-fileorder", "grammar files in the order glue, rules give %r instead of %r" % (outs[1], outs[0]))


def body(c):
    c.rule = "a sentence counts when it has more than one derivation; identity = (case, sentence)"
    c.assumptions = ["when several grammar files are given, no rule starts with a non-terminal that only a later file produces",
                     "numbers are printed with 6 digits, compared to 2e-5"]
    c.exe = common.build("asan", bins=["travatar"])
    common.pmap(lambda i: one(c, i), range(c.n(500, 5000)))
    common.pmap(lambda i: cycles(c, i), range(8))
    fileorder(c)


common.main("C06", body)
