#!/usr/bin/env python3
"""C19: n-gram language models answer queries as defined by their model file."""
import gzip, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, arpa
from common import close

TYPES = ["probing", "rest", "trie", "array", "quant", "qarray"]
NUMBER = {"probing": 0, "rest": 1, "trie": 2, "quant": 3, "array": 4, "qarray": 5}


def near(a, b, n=1):
    return abs(a - b) <= 2e-5 * (n + abs(a) + abs(b))


def text(r, lm):
    """ARPA text in one of the ways it is written"""
    k = r.choice(["plain", "plain", "exp", "pad"])
    def num(x):
        if k == "exp":
            return "%.3e" % x if r.random() < 0.5 else "%.6f" % x
        return "-99" if x == -99.0 and r.random() < 0.5 else repr(x)
    out = ["", "\\data\\"] if k == "pad" else ["\\data\\"]
    by = {}
    for g in lm.grams:
        by.setdefault(len(g), []).append(g)
    for n in range(1, lm.order + 1):
        out.append("ngram %d=%d" % (n, len(by.get(n, []))))
    sep = "\t"
    for n in range(1, lm.order + 1):
        out += ["", "\\%d-grams:" % n]
        for g in by.get(n, []):
            p, b = lm.grams[g]
            out.append(num(p) + sep + " ".join(g) + (sep + num(b) if n < lm.order and b is not None else ""))
    return "\n".join(out + ["", "\\end\\", ""])


def brackets(r, ws, depth=0):
    """tokens of a random bracketing of ws; <s> stays at the front of the outermost rule, or of a leading one"""
    kind = r.choice("([")
    out, i = [kind], 0
    while i < len(ws):
        if depth < 4 and r.random() < 0.45:
            j = r.randint(i, min(len(ws), i + r.choice([1, 2, 4, 8])))
            # a sentence start inside of another rule is only allowed at its front
            if i == 0 and j == 0 and ws and ws[0] == "<s>":
                continue
            out += brackets(r, ws[i:j], depth + 1)
            i = j
        else:
            out.append(ws[i])
            i += 1
    return out + [")" if kind == "(" else "]"]


def continues(lm, typ):
    """whether each suffix of an n-gram that can be a context can be one, too (states are cut on this assumption)"""
    pre = {g[:-1] for g in lm.grams if len(g) > 1}
    if typ:
        # suffixes of n-grams that have no entry take a place in the model, too
        pre |= {g[k:-1] for g in lm.grams for k in range(1, len(g) - 1)}
    ok = lambda g: g in pre or (lm.grams.get(g, (0, 0))[1] or 0) != 0
    return all(ok(g[k:]) for g in lm.grams if ok(g) for k in range(1, len(g)))


class Q(object):
    """one script of queries, with what the file says about each"""
    def __init__(self, r, lm, n, closed):
        self.L, self.W = [], []
        self.lm, self.closed = lm, closed
        self.ext = set()
        for g in lm.grams:
            for k in range(1, len(g)):
                self.ext.add(g[k:])
        V = sorted(lm.vocab - {"<s>"}) + ["OOV", "oov2"]
        grams = [g for g in lm.grams if len(g) > 1]

        def ws(k):
            # walk along the n-grams of the model
            out = []
            while len(out) < k:
                if r.random() < 0.6 and grams:
                    out += [w for w in r.choice(grams) if w != "<s>" and (w != "</s>" or r.random() < 0.2)]
                else:
                    out.append(r.choice(V))
            return out[:k]
        for _ in range(n):
            k = r.choice([0, 1, 2, 3, 5, 8, 12, 20])
            s = ws(k)
            end = ["</s>"] if r.random() < 0.6 else []
            self.add("S", s + end)
            self.add("N", s + end)
            self.add("F", s, r.choice(V), ws(3))
            self.add("G", s, r.choice(V), ws(3))
            for _b in range(3):
                self.add("C", s + end, brackets(r, s + end))
                x = ["<s>"] + s + end
                self.add("C", x, brackets(r, x))
            a, b, c = ws(r.choice([1, 2, 3, 6])), ws(r.choice([0, 1, 2, 3, 6])), ws(r.choice([1, 2, 3, 6]))
            self.add("C", a + b + c, ["("] + a + b + c + [")"])
            self.add("P", a, b, c)
        self.add("O")
        for w in r.sample(V, min(len(V), 12)) + ["<s>", "</s>", "<unk>"]:
            self.add("V", w)

    def add(self, op, *a):
        if op in "SN":
            l = [op] + a[0]
        elif op in "FG":
            l = [op] + a[0] + ["|", a[1]] + a[2]
        elif op == "C":
            l = [op] + a[1]
        elif op == "P":
            l = [op] + a[0] + ["|"] + a[1] + ["|"] + a[2]
        else:
            l = [op] + list(a)
        self.L.append(" ".join(l))
        self.W.append((op, a))

    def walk(self, h, ws):
        out = []
        for w in ws:
            w = self.lm.word(w)
            hh = tuple(h)[-(self.lm.order - 1):]
            p = self.lm.cond(hh, w)
            n = 1
            while n < len(hh) + 1 and hh[len(hh) - n:] + (w,) in self.lm.grams:
                n += 1
            full = hh[len(hh) - n + 1:] + (w,)
            ind = not (n == len(h) + 1 and full in self.ext) if full in self.lm.grams else True
            out.append((p, n, ind, len(hh)))
            h = list(h) + [w]
        return out, h


def judge(c, q, typ, exact, R, data, enum, names=None):
    lm = q.lm
    what = {"model": typ, **data}
    if not c.expect(len(R) == len(q.L), "replies:" + typ, "%d replies for %d queries" % (len(R), len(q.L)), what):
        return
    chart, frag = {}, {}
    states = {}
    tol = 1 if exact else None

    def same(key, a, b, n, l):
        if exact:
            c.expect(near(a, b, n), key + ":" + typ, "%r gives %r, the model file says %r" % (l, a, b), what)
    for (op, a), l, rep in zip(q.W, q.L, R):
        t = rep.split(" ")
        if not c.expect(t[0] == op, "reply:" + typ, "%r answered by %r" % (l, rep), what):
            return
        t = t[1:]
        if op in "SNFG":
            if op in "SN":
                h0, ws = (["<s>"] if op == "S" else []), a[0]
            else:
                h0, ws = [lm.word(w) for w in a[0]], [a[1]] + a[2]
            if op == "G":
                t = t[:1] + t[2:]
            want, _ = q.walk(h0, ws)
            if not c.expect(len(t) == len(want), "answers:" + typ, "%r answered by %r" % (l, rep), what):
                continue
            hist = list(h0)
            # the words of context a query has are those of the state
            sl = {"S": 1, "N": 0, "F": min(lm.order - 1, len(h0)), "G": None}[op]
            for w, x, (p, n, ind, hl) in zip(ws, t, want):
                x = x.split(",")
                same("prob", float(x[0]), p, 1, "%s: %s after %s" % (op, w, hist))
                if q.closed:
                    c.expect(int(x[1]) == n, "length:" + typ, "%r: %s after %s matched %s words, the file has %d" % (l, w, hist, x[1], n), what)
                    full = tuple(hist[len(hist) - n + 1:]) + (lm.word(w),)
                    if sl is not None:
                        ind = not (full in lm.grams and full in q.ext and n == sl + 1)
                        c.expect(bool(int(x[2])) == ind, "independent:" + typ, "%r: %s after %s has independent_left=%s" % (l, w, hist, x[2]), what)
                st = x[4].split(":")
                c.expect(int(st[0]) == len(st) - 1 and int(st[0]) <= min(lm.order - 1, len(hist) + 1), "state-length:" + typ, "%r: %s after %s leaves the state %s" % (l, w, hist, x[4]), what)
                if typ not in ("rest",):
                    c.expect(close(float(x[3]), float(x[0]) , 1e-4) or int(x[1]) <= hl, "rest:" + typ, "%r: the rest cost %s is not the probability %s" % (l, x[3], x[0]), what)
                hist.append(lm.word(w))
                sl = int(st[0])
                c.count("words scored")
        elif op == "C":
            tot, st, eq = float(t[0]), t[1], t[2]
            bos = a[0][:1] == ["<s>"]
            ws = a[0][1:] if bos else a[0]
            want, _ = q.walk(["<s>"] if bos else [], ws)
            if typ != "rest" or bos:
                same("chart", tot, sum(w[0] for w in want), len(ws) + 1, l)
            k = tuple(a[0])
            if k in chart:
                c.expect(near(chart[k][0], tot, len(ws) + 1), "bracketing:" + typ, "%s scores %r and %r, depending on the bracketing (%r)" % (k, chart[k][0], tot, l), what)
                c.expect(chart[k][1] == st, "bracketing-state:" + typ, "%s leaves %s or %s, depending on the bracketing (%r)" % (k, chart[k][1], st, l), what)
                c.count("bracketings compared")
            else:
                chart[k] = (tot, st)
            c.expect(eq == "111", "state-equal:" + typ, "a copied state differs (%s) after %r" % (eq, l), what)
            c.count("rule applications", l.count("(") + l.count("["))
        elif op == "P":
            pa, pb, pc, x = map(float, t)
            n = len(a[0] + a[1] + a[2])
            full = chart[tuple(a[0] + a[1] + a[2])][0]
            c.expect(near(full, pa + pb + pc + x, n + 3), "reveal:" + typ, "%r: revealing adds %r to %r, %r and %r, the whole has %r" % (l, x, pa, pb, pc, full), what)
            c.count("contexts revealed")
        elif op == "O":
            c.expect(int(t[0]) == lm.order, "order:" + typ, "the order is %s, expected %d" % (t[0], lm.order), what)
        elif op == "V":
            w = a[0]
            known = w in lm.vocab
            c.expect((int(t[0]) != int(t[1])) == (known and w != "<unk>"), "vocab:" + typ, "the word %s has index %s, the unknown word %s" % (w, t[0], t[1]), what)
            if w == "<s>" and known:
                c.expect(t[0] == t[2], "vocab-bos:" + typ, rep, what)
            if w == "</s>" and known:
                c.expect(t[0] == t[3], "vocab-eos:" + typ, rep, what)
            if enum:
                c.expect(t[4] == (w if known or w == "<unk>" else "<unk>") and int(t[6]) == 0, "vocab-enum:" + typ, "the index of %s was enumerated as %s" % (w, t[4]), what)
                c.expect(int(t[5]) == len(lm.vocab | {"<unk>"}) and int(t[7]) >= int(t[5]), "vocab-size:" + typ, "%s words were enumerated (bound %s), the file has %d" % (t[5], t[7], len(lm.vocab | {"<unk>"})), what)
            c.count("words looked up")


def one(c, exe, i):
    r = c.sub("lm%d" % i)
    big = r.random() < (0.03 if not c.thorough else 0.1)
    V = r.choice([["a"], ["a", "b"], ["w%d" % k for k in range(r.choice([5, 20, 60]))], ["犬", "é", "x|y", "\"q\"", "<a>", "-", "1.5", "\\data\\"]])
    if big:
        V = ["v%d" % k for k in range(3000)]
    order = r.choice([2, 2, 3, 3, 4, 5, 6])
    closed = r.random() < 0.7
    lm = arpa.gen(r, V, order, r.choice([0.5, 2, 4]) if not big else 2, closed=closed, unk=r.random() < 0.7, lo=r.choice([-3.0, -0.5, -7.0]))
    if r.random() < 0.75:
        # as estimated models are: no back-off weight where nothing follows
        pre = {g[:-1] for g in lm.grams}
        for g in lm.grams:
            if g not in pre and len(g) < lm.order:
                lm.grams[g] = (lm.grams[g][0], r.choice([None, 0.0]))
    af = c.write("lm%d.arpa" % i, text(r, lm))
    q = Q(r, lm, c.n(6, 12), closed)
    if not continues(lm, True):
        # word by word only
        keep = [k for k in range(len(q.L)) if q.W[k][0] not in "CP"]
        q.L, q.W = [q.L[k] for k in keep], [q.W[k] for k in keep]
        c.count("models queried word by word only")
    script = "\n".join(q.L) + "\n"
    data = {"arpa": open(af, encoding="utf8").read() if not big else "(big)", "script": script}
    perorder = {}
    for g in lm.grams:
        perorder[len(g)] = perorder.get(len(g), 0) + 1
    for typ in TYPES:
        # a quantizer with a bin for each n-gram loses nothing (blanks for missing suffixes take bins, too)
        need = max(list(perorder.values())[1:] or [1])
        bits = r.choice([2, 4, 8, 12])
        bbits = bits if r.random() < 0.5 else r.choice([2, 3, 5, 8, 12])
        exact = "q" not in typ or (closed and (1 << min(bits, bbits)) - 2 > need)
        opts = ["mem=%d" % r.choice([1 << 20, 1 << 16]), "tmp=" + c.path("t%d-%s-" % (i, typ))] + (["pbits=%d" % bits, "bbits=%d" % bbits] if "q" in typ else []) + \
               (["abits=%d" % r.choice([1, 3, 8, 64])] if "array" in typ else []) + (["mult=%s" % r.choice(["1.2", "1.5", "4"])] if typ in ("probing", "rest") else [])
        bin_ = c.path("lm%d.%s" % (i, typ))
        wr = r.random() < 0.7
        w = ["write=" + bin_, "method=" + r.choice(["mmap", "after"]), "vocab=" + r.choice("011")] if wr else []
        enum = r.random() < 0.5 and not wr
        p = common.run([exe, typ, af] + opts + w + (["enum=1"] if enum else []), script, timeout=240)
        d2 = dict(data, args=[typ] + opts + w)
        if not closed and "Avoid pruning" in p.out and typ in ("probing", "rest"):
            c.count("models refused for missing suffixes")
            continue
        if not c.expect(p.rc == 0 and not p.crashed and not p.timeout, "crash:%s:%s" % (typ, ">".join(p.frames(2))), "the %s model ended with %s %s" % (typ, p.why(), p.out[:200]), d2):
            continue
        judge(c, q, typ, exact, p.out.split("\n")[:-1], d2, enum)
        c.count("models loaded: " + typ)
        if wr:
            # what was written reads back as the same
            hasv = w[2] == "vocab=1"
            ld = ["load=" + r.choice(["lazy", "populate", "popread", "read", "parallel"])]
            en = ["enum=1"] if hasv and r.random() < 0.5 else []
            b = common.run([exe, typ, bin_] + ld + en, script, timeout=240)
            d3 = dict(d2, reload=ld)
            strip = lambda t: "\n".join(l if not l.startswith("V") else " ".join(l.split(" ")[:5]) for l in t.split("\n"))
            if c.expect(b.rc == 0 and not b.crashed and not b.timeout, "crash-binary:%s:%s" % (typ, ">".join(b.frames(2))), "reloading the %s model ended with %s %s" % (typ, b.why(), b.out[:200]), d3):
                A, B = strip(p.out).split("\n"), strip(b.out).split("\n")
                bad = [(l, x, y) for l, x, y in zip(q.L, A, B) if x != y]
                c.expect(A == B, "binary:" + typ, "reloaded from its binary file, the model answers differently: %s" % bad[:2], d3)
                if en:
                    judge(c, q, typ, exact, b.out.split("\n")[:-1], d3, True)
                c.count("models reloaded")
            k = common.run([exe, "what", bin_], "", timeout=60)
            c.expect(k.out.split() == ["1", str(NUMBER[typ])], "recognize:" + typ, "the binary file is recognized as %s" % k.out, d3)
            if r.random() < 0.4:
                v = common.run([exe, "virtual", bin_] + ld, "\n".join(l for l in q.L if l[0] in "SN") + "\n", timeout=240)
                c.expect(v.rc == 0 and v.out.split("\n")[:-1] == [x for l, x in zip(q.L, p.out.split("\n")) if l[0] in "SN"], "virtual:" + typ, "through the common interface, the model answers differently (%s)" % v.why(), d3)
                c.count("models through the common interface")
            if r.random() < 0.3:
                o = r.choice([t for t in TYPES if t != typ])
                v = common.run([exe, o, bin_], script, timeout=60)
                c.expect(v.rc == 3 and v.out.startswith("EXC"), "wrong-type", "a binary %s model was loaded as %s: %s %s" % (typ, o, v.why(), v.out[:100]), d3)
                c.count("models of the wrong type refused")
            if r.random() < 0.3:
                blob = open(bin_, "rb").read()
                cut = r.choice([r.randrange(len(blob)), len(blob) // 2, 100])
                tb = c.path("cut%d.%s" % (i, typ))
                open(tb, "wb").write(blob[:cut])
                v = common.run([exe, typ, tb] + ld, script, timeout=60)
                # (the vocabulary strings at the end are not needed without enumeration)
                ok = v.rc == 3 and v.out.startswith("EXC") or v.rc == 0 and strip(v.out) == strip(b.out) and hasv
                c.expect(ok and not v.crashed, "truncated:" + typ, "%d of %d bytes of a binary model were loaded: %s %s" % (cut, len(blob), v.why(), v.out[:100]), dict(d3, cut=cut))
                c.count("truncated models refused")
    c.case(("lm", i), len(lm.grams) > 4, {"arpa": data["arpa"][:300], "queries": q.L[:3]})


def body(c):
    exe = common.build("asan", drivers=["kenlmq"])["kenlmq"]
    c.rule = ("random back-off models of order 2 to 6 (with missing suffixes, missing <unk>, ties, one word or thousands), loaded by every representation of the sanitized library, saved and reloaded by every method; word by word, "
              "from forgotten state, through random bracketings and by revealing contexts, every answer is compared with the back-off definition applied to the file")
    c.assumptions = ["quantized models are compared with the file only if the quantizer has a bin for each value; otherwise with themselves", "pieces are judged for models in which each suffix of a context that can be extended can be extended, too, as in all estimated models (states are cut on this assumption); others are queried word by word", "matched lengths are judged for models that hold the suffix of each n-gram",
                     "probabilities within 2e-5 relative (single precision sums)"]
    common.pmap(lambda i: one(c, exe, i), range(c.n(160, 2500)))


if __name__ == "__main__":
    common.main("C19", body)
