#!/usr/bin/env python3
"""C21: tokenizer, re-segmenter and casing tools: the text that comes out is the text that went in."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import close
from c13 import mk_bleu, mk_ribes, mk_wer, mk_interp, M, mutate

PIECES = ["'", "\"", "`", "``", "''", "'s", "n't", "'ll", "'re", "can't", "I'm", "cannot", "gonna", "'tis", "Gimme", "d'ye", "...", "…", "–", "--", "---", "—", ".", "..", ",", ":", ";", "@", "#", "$", "%", "&", "=", "*",
          "?", "!", "(", ")", "[", "]", "{", "}", "<", ">", " -LRB- ", "Mr.", "U.S.", "etc.", "No.5", "vol.7", "fig.3", "3.14", "1,000", "10:30", "5kg", "12km", "3 cm ", "100Mb", "a", "I", "dog", "Hello", "x_y", "犬", "été",
          "«", "»", "“", "”", "‘", "’", "「", "」", "《", "\t", "Ω", "\\", "/", "|", "^", "~", "+", "0", "42", "--x", ".'", ".\"", ",\"", "é,", "犬.", "\u00a0", "e.g.", "A", "'''", "a'b", "'a'", "end.)", "\"quoted.\"", "http://x.y/z?a=b&c=d"]
RAW = "".join(chr(i) for i in range(33, 127)) + "  '\"`.,éの“"


def gen_line(r):
    k = r.random()
    if k < 0.55:
        out = ""
        for _ in range(r.choice([0, 1, 2, 5, 12, 30])):
            out += r.choice(PIECES) + r.choice(["", "", " ", " ", "  "])
        return out
    if k < 0.75:
        return "".join(r.choice(RAW) for _ in range(r.choice([1, 3, 10, 60])))
    if k < 0.85:
        return " ".join(r.choice(["the", "dog", "said", ",", "\"", "no", "way", "!", "\"", "(", "ok", ")", "it's", "done."]) for _ in range(r.randint(1, 15)))
    if k < 0.95:
        return "".join(r.choice("'\"`. ,(s") for _ in range(r.choice([1, 2, 4, 8, 20])))
    return "".join(r.choice(["\xe9".encode("latin1").decode("utf8", "surrogateescape"), "a", " ", ".", "'", "\x01", "\x7f", b"\xe2\x80".decode("utf8", "surrogateescape")]) for _ in range(10))


SUBST = [("-LRB-", "("), ("-RRB-", ")"), ("-LSB-", "["), ("-RSB-", "]"), ("-LCB-", "{"), ("-RCB-", "}"), ("…", "..."), ("–", "--"), ("`", "'"), ("\"", "''")]


def canon(s):
    for a, b in SUBST:
        s = s.replace(a, b)
    return s


def cuts(s):
    """(text without white space, positions in it where a white space was)"""
    out, c = [], set()
    n = 0
    for w in re.split(r"[ \t\n\v\f\r]+", s):
        if not w:
            continue
        k = canon(w)
        out.append(k)
        n += len(k)
        c.add(n)
    return "".join(out), c


def tokens(c, exe, i):
    r = c.sub("tok%d" % i)
    L = [gen_line(r) for _ in range(60)]
    text = "".join(l + "\n" for l in L)
    data = {"input": text}
    p = common.run([exe, "-type", "penn"], text, timeout=120)
    if not c.expect(not p.crashed and not p.timeout and p.rc == 0, "crash:tokenizer:" + ">".join(p.frames(2)), "tokenizer ended with " + p.why(), data):
        return
    O = p.out.split("\n")
    if not c.expect(len(O) == len(L) + 1, "tok-lines", "%d lines for %d" % (len(O) - 1, len(L)), data):
        return
    for l, o in zip(L, O):
        # a bracket code in the input could be cut apart, and then reads differently
        a, ca = cuts(l)
        b, cb = cuts(o)
        d = dict(data, line=l, output=o)
        c.expect(a == b, "tok-text", "%r became %r: the characters differ" % (l, o), d)
        if a == b:
            c.expect(ca <= cb, "tok-joined", "%r became %r: words were joined" % (l, o), d)
        if b:
            c.expect("  " not in o and not o.startswith(" ") and not o.endswith(" "), "tok-spaces", "%r has stray spaces" % o, d)
            for w in o.split(" "):
                c.expect(len(w) == 1 or not re.search(r"[()\[\]{}<>?!]", w), "tok-brackets", "%r in the output of %r holds a bracket or mark that should stand alone" % (w, l), d)
        try:
            l.encode("utf8")
            for w in o.split(" "):
                w.encode("utf8")
        except UnicodeEncodeError:
            c.expect("\udc80" <= max(l) or not re.search("[\udc80-\udcff]", o) or re.search("[\udc80-\udcff]", l), "tok-utf8", "%r became %r, with broken characters" % (l, o), d)
        c.count("lines tokenized")
        c.count("tokens", len(o.split()))
    # each line by itself gives the same, and so does a second run
    k = r.sample(range(len(L)), 3)
    q = common.run([exe, "-type", "penn"], "".join(L[x] + "\n" for x in k), timeout=120)
    c.expect(q.out == "".join(O[x] + "\n" for x in k), "tok-repeat", "the same lines alone give %r, before %r" % (q.out[:300], [O[x] for x in k]), data)
    if i % 5 == 0:
        q = common.run([exe, "-type", "none"], text, timeout=120)
        c.expect(q.out == text, "tok-none", "the identity tokenizer changed the text", data)
    c.case(("tok", i), True, {"in": L[:3], "out": O[:3]})


def segment(c, exe, i):
    r = c.sub("seg%d" % i)
    vocab = r.choice([list("ab"), list("abcdef"), ["w%d" % k for k in range(20)], ["の", "é", "a", "x0", "\"", "|||"]])
    R = r.choice([1, 2, 3, 4, 6])
    refs = [[r.choice(vocab) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6]) if r.random() < 0.3 else r.randint(2, 6))] for _ in range(R)]
    hyps = [mutate(r, x, vocab) if r.random() < 0.8 else [r.choice(vocab) for _y in range(r.randint(0, 5))] for x in refs]
    W = [w for h in hyps for w in h]
    while True:
        m = r.choice([lambda: mk_bleu(), lambda: M("bleu:smooth=1", "bleu", order=4, smooth=1.0, prec=1.0, mean="geom", inverse=False, brev=True, scope="corpus", factor=0),
                      lambda: mk_bleu(r), lambda: mk_ribes(r), lambda: mk_wer(True), lambda: M("zeroone", "zeroone"), lambda: mk_interp(r)])()
        if "nist" not in m.cfg and "inverse" not in m.cfg:
            break
    slack = r.choice([None, None, 1.0, 1.5, 3.0, 10.0, 0.75, 1.1, 1.2, 1.3, 1.34, 1.7, 1.75, 1.9, 2.3, 2.6, round(r.uniform(0.8, 3), 2)])
    if r.random() < 0.25 and R > 1:  # only just possible: a sentence as long as it may be
        sl = slack or 2.0
        k = r.randrange(R)
        hyps[k] = (hyps[k] + [r.choice(vocab) for _ in range(40)])[:int(sl * len(refs[k]))]
        W = [w for h in hyps for w in h]
    # the system text comes in lines that have nothing to do with the sentences
    text, k = "", 0
    while k < len(W) or not text:
        n = r.choice([1, 3, 7, 100])
        text += " ".join(W[k:k + n]) + "\n"
        k += n
    rf, hf = c.write("ref%d" % i, "".join(" ".join(x) + "\n" for x in refs)), c.write("hyp%d" % i, text)
    args = ["-ref", rf, "-eval", m.cfg] + (["-slack", str(slack)] if slack else []) + [hf]
    data = {"refs": refs, "text": text, "args": args}
    p = common.run([exe] + args, timeout=240)
    sl = slack or 2.0
    # the best segmentation, from the last reference to the first
    N = len(W)
    memo = {}
    amb = [False]
    stat = {}

    def st(j, a, b):
        if (j, a, b) not in stat:
            stat[(j, a, b)] = m.stats([refs[j]], [W[a:b]])
        return stat[(j, a, b)]

    def best(j, a):
        if (j, a) in memo:
            return memo[(j, a)]
        mx = int(sl * len(refs[j]))
        res = None
        for b in range(N if j == R - 1 else a, min(N, a + mx) + 1):
            s = st(j, a, b)
            if j < R - 1:
                nx = best(j + 1, b)
                if nx is None:
                    continue
                s = m.add(s, nx[2])
            v = m.value(s)
            if v != v:
                continue
            if res is not None and abs(v - res[0]) < 1e-9 and v != res[0]:
                amb[0] = True
            if res is None or v > res[0]:
                if res is None or v > res[0] + 1e-12:
                    res = (v, b, s)
        memo[(j, a)] = res
        return res
    want = best(0, 0)
    if want is None:
        c.expect(p.diagnosed or (p.rc != 0 and not p.san), "seg-impossible", "no segmentation is possible, but the segmenter ended with %s and wrote %r" % (p.why(), p.out[:200]), data)
        c.count("impossible segmentations")
        return
    if not c.expect(not p.crashed and not p.timeout and p.rc == 0, "crash:segmenter:" + ">".join(p.frames(2)), "mt-segmenter ended with " + p.why(), data):
        return
    O = [x.split() for x in p.out.split("\n")[:-1]]
    c.expect([w for x in O for w in x] == W, "seg-words", "the words came out as %s, the text was %s" % (O, W), data)
    if c.expect(len(O) == R, "seg-lines", "%d lines for %d references" % (len(O), R), data):
        c.expect(all(len(o) <= sl * len(f) + 1e-9 for o, f in zip(O, refs)), "seg-slack", "%s is longer than %s times its reference %s" % (O, sl, refs), data)
        tot = None
        for o, f in zip(O, refs):
            s = m.stats([f], [o])
            tot = s if tot is None else m.add(tot, s)
        v = m.value(tot)
        if not amb[0]:
            c.expect(v >= want[0] - 1e-7 * max(1.0, abs(want[0])), "seg-best:" + m.kind, "%s scores the segmentation %s at %r, the best found is %r" % (m.cfg, O, v, want[0]), dict(data, output=O))
            c.count("segmentations judged")
        else:
            c.count("segmentations with near ties")
    c.case(("seg", i), R > 1 and N > 1, {"refs": refs, "text": text, "out": O})


CW = ["the", "The", "THE", "US", "us", "Us", "dog", "Dog", "été", "Été", "ÉTÉ", "дом", "Дом", "iPhone", "IPhone", "犬", "42", "a1", "A1", "x-Y", "X-y", "McDonald", "mcdonald", "Ω", "ω"]
PUNC = [".", "!", "?", ":", "\"", "(", "[", "'", "`", "``", ",", ";"]


def first(ws):
    f = [False] * len(ws)
    if ws:
        f[0] = True
    start = True
    for k, w in enumerate(ws):
        if w in (".", ":", "!", "?"):
            start = True
        elif w not in ("(", "[", "\"", "'", "`", "``"):
            f[k] = start
            start = False
    return f


def casing(c, train, conv, i):
    r = c.sub("case%d" % i)
    voc = r.sample(CW, r.randint(3, len(CW)))
    sent = lambda: [r.choice(PUNC) if r.random() < 0.25 else r.choice(voc) for _ in range(r.choice([0, 1, 2, 4, 8, 20]))]
    T = [sent() for _ in range(r.choice([0, 1, 5, 40, 100]))]
    text = "".join(" ".join(s) + "\n" for s in T)
    data = {"training": text}
    p = common.run([train], text, timeout=60)
    if not c.expect(not p.crashed and not p.timeout and p.rc == 0, "crash:train-caser:" + ">".join(p.frames(2)), "train-caser ended with " + p.why(), data):
        return
    cnt = {}
    for s in T:
        for w, f in zip(s, first(s)):
            if not f:
                d = cnt.setdefault(w.lower(), {})
                d[w] = d.get(w, 0) + 1
    got = p.out.split("\n")[:-1]
    c.expect(len(got) == len(cnt) and sorted(g.lower() for g in got) == sorted(cnt), "case-model:words", "the model holds %s, expected one casing for each of %s" % (sorted(got), sorted(cnt)), data)
    for g in got:
        d = cnt.get(g.lower(), {})
        c.expect(g in d and d[g] == max(d.values()), "case-model:best", "the model has %s, which was counted %s" % (g, d), data)
    c.count("casings learned", len(got))
    # and the model at work
    model = c.write("model%d" % i, p.out)
    S = [s for s in (sent() for _ in range(20)) if s]
    src = "".join(" ".join(s) + "\n" for s in S)
    mp = {g.lower(): g for g in got}
    for how in ("low", "title", "true:model=" + model):
        q = common.run([conv, "-input_format", "word", "-output_format", "word", "-case", how], src, timeout=60)
        d2 = dict(data, input=src, case=how)
        if not c.expect(not q.crashed and not q.timeout and q.rc == 0, "crash:caser:" + ">".join(q.frames(2)), "casing ended with " + q.why(), d2):
            continue
        O = [l.split(" ") for l in q.out.split("\n")[:-1]]
        if not c.expect(len(O) == len(S), "case-lines", "%d lines for %d" % (len(O), len(S)), d2):
            continue
        for s, o in zip(S, O):
            h = how.split(":")[0]
            c.expect([w.lower() for w in s] == [w.lower() for w in o], "case-only:" + h, "%s became %s: more than the case changed" % (s, o), d2)
            if h == "low":
                c.expect(o == [w.lower() for w in s], "case-low", "%s became %s" % (s, o), d2)
            else:
                for k, (a, b, f) in enumerate(zip(s, o, first(s))):
                    if not f:
                        c.expect(a == b, "case-inner:" + h, "word %d of %s became %s, but does not start a sentence" % (k, s, b), d2)
                    elif h == "true":
                        c.expect(b == mp.get(a.lower(), a), "case-true", "word %d of %s became %s, the model says %s" % (k, s, b, mp.get(a.lower(), a)), d2)
                    elif a[:1].isalpha():
                        c.expect(b[:1] == a[:1].upper(), "case-title", "word %d of %s became %s" % (k, s, b), d2)
            c.count("sentences recased")
    c.case(("case", i), bool(cnt), {"training": text[:200], "model": got[:5]})


def body(c):
    exe = common.build("asan", bins=["tokenizer", "mt-segmenter", "train-caser", "tree-converter"])
    c.rule = ("random lines (quotes, brackets, units, abbreviations, raw ASCII, broken UTF-8) through the sanitized tokenizer, compared after undoing its documented substitutions; random texts through the sanitized "
              "mt-segmenter, judged by an exhaustive dynamic programme over all segmentations; random corpora through train-caser and its model through the caser, against counted casings")
    c.assumptions = ["for corpus-level BLEU, which is not additive, the best segmentation is the one found by extending the best suffixes", "ties in training counts may be resolved either way",
                     "Penn substitutions: quotes, brackets, the ellipsis and the dash"]
    common.pmap(lambda i: tokens(c, exe["tokenizer"], i), range(c.n(150, 3000)))
    common.pmap(lambda i: segment(c, exe["mt-segmenter"], i), range(c.n(900, 9000)))
    common.pmap(lambda i: casing(c, exe["train-caser"], exe["tree-converter"], i), range(c.n(60, 800)))


if __name__ == "__main__":
    common.main("C21", body)
