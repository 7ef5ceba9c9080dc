#!/usr/bin/env python3
"""C10: trees and forests before and after every transformation, compared as sets of derivations."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import arpa, common, forest
from common import close
from c09 import T, words, gen_tree, penn, penn_messy, rule, moses, gen_forest, jforest, spans_ok

WORDS = ["a", "b", "the", "The", "well-known", "a-b-c", "x/y", "--", "-", "a_b", "-LRB-", "-rsb-", "up--to", "-x", "x-", "MIXED", "ÉTÉ", "犬", "42", "3-4", ".", "!", "?", ":", "(b", "'", "``", "\"",
         "[", "km/h-max", "x\\/y", "fooBar", "foobar", "barfoo", "foosbar", "A"]
SAFE = [w for w in WORDS if "(" not in w]
LABELS = ["S", "NP", "VP", "NN", "X", "NP-SBJ", ".", ",", "$.", "$,", ":", "-LRB-", "ADJP", "犬", "1"]
PUNC = {".", "$.", ",", "$,"}
IGNORE = {"-%s-" % x for x in "LRB RRB lrb rrb LSB RSB lsb rsb LCB RCB lcb rcb".split()}
REGEX = ["[-]", "[-]+", r"(\-+|\\/)", "[/_]", "oo", "[0-9]", "[-]|/"]
FIRST = {".", ":", "!", "?"}
DELAY = {"(", "[", "\"", "'", "`", "``"}


# ---- what each transformation should do
def split_word(w, rx):
    if w in IGNORE:
        return [w]
    out, pos = [], 0
    for m in re.finditer(rx, w):
        if m.start() != pos:
            out.append(w[pos:m.start()])
        out.append(m.group(0))
        pos = m.end()
    if pos != len(w):
        out.append(w[pos:])
    return out


def compound(w, lm, minchar, thr, fillers):
    """([parts], doubtful)"""
    if w in IGNORE:
        return [w], False
    b = w.encode()
    know = lambda x: x in lm.vocab and x != "<unk>"
    uni = lambda x: lm.grams[(x,)][0]
    base = uni(w) if know(w) else -99.0
    if len(b) <= 2 * minchar or not (base < thr or not know(w)):
        return [w], know(w) and abs(base - thr) < 1e-4
    cand = []
    for i in range(minchar, len(b) - minchar + 1):
        for f in fillers + [""]:
            fb = f.encode()
            if b[i:i + len(fb)] == fb:
                try:
                    a, z = b[:i].decode(), b[i + len(fb):].decode()
                except UnicodeDecodeError:
                    continue
                if know(a) and know(z):
                    cand.append(((uni(a) + uni(z)) / 2, [a, z]))
    cand = [x for x in cand if x[0] > base - 1e-4]
    if not cand:
        return [w], False
    top = max(x[0] for x in cand)
    near = [x for x in cand if x[0] > top - 1e-4]
    if top <= base + 1e-4:
        return [w], True
    return near[0][1], len({tuple(x[1]) for x in near}) > 1


def firsts(ws):
    f = [False] * len(ws)
    if ws:
        f[0] = True
    start = True
    for i, w in enumerate(ws):
        if w in FIRST:
            start = True
        elif w not in DELAY:
            f[i] = start
            start = False
    return f


def case_words(ws, how):
    if how == "low":
        return [w.lower() for w in ws]
    f = firsts(ws)
    if how == "title":
        return [re.sub(r"\w+", lambda m: m.group(0)[:1].upper() + m.group(0)[1:].lower(), w) if x else w for w, x in zip(ws, f)]
    return [how.get(w.lower(), w) if x else w for w, x in zip(ws, f)]


def bin_shape(label, kids, base, rp, lab):
    """nested (label, kids) with at most two children; kids stay as they are"""
    if len(kids) <= 2:
        return (label, kids)
    d = base
    if rp and base == "right" and lab(kids[-1]) in PUNC:
        d = "left"
    if rp and base == "left" and lab(kids[0]) in PUNC:
        d = "right"
    return (label, kids)[:1] + (([kids[0], ("'", kids[1:])] if d == "right" else [("'", kids[:-1]), kids[-1]]),)


def bin_nest(label, kids, base, rp, lab, bar):
    label, ks = bin_shape(label, kids, base, rp, lab)
    out = []
    for k in ks:
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "'":
            out.append(("HELPER",) + bin_nest(bar, k[1], base, rp, lab, bar))
        else:
            out.append(k)
    return (label, out)


def tlab(t):
    return t if isinstance(t, str) else t.lab


def tree_bin(t, base, rp):
    if isinstance(t, str):
        return t
    kids = [tree_bin(k, base, rp) for k in t.kids]

    def mk(n):
        return T(n[0], [mk(k[1:]) if isinstance(k, tuple) else k for k in n[1]])
    return mk(bin_nest(t.lab, kids, base, rp, tlab, t.lab + "'"))


def tree_flat(t):
    if isinstance(t, str):
        return t
    lab = t.lab
    while len(t.kids) == 1 and not isinstance(t.kids[0], str):
        t = t.kids[0]
        lab += "_" + t.lab
    return T(lab, [tree_flat(k) for k in t.kids])


def tree_split(t, parts, i=0):
    """parts: position -> words"""
    if isinstance(t, str):
        return parts[i], i + 1
    if len(t.kids) == 1 and isinstance(t.kids[0], str):
        p = parts[i]
        return T(t.lab, p if len(p) == 1 else [T(t.lab, [w]) for w in p]), i + 1
    kids = []
    for k in t.kids:
        r, i = tree_split(k, parts, i)
        kids += r if isinstance(r, list) else [r]
    return T(t.lab, kids), i


def tree_relabel(t, ws, i=0):
    if isinstance(t, str):
        return ws[i], i + 1
    kids = []
    for k in t.kids:
        r, i = tree_relabel(k, ws, i)
        kids.append(r)
    return T(t.lab, kids), i


# forests as sets of edges between named nodes: name = (label, l, r, is a word)
def abstract(nodes, edges, root):
    heads = {e[0] for e in edges}
    # (several helpers may have the same label and span)
    nm = lambda v: (nodes[v][0], nodes[v][1], nodes[v][2], v not in heads) + ((v,) if v in heads and nodes[v][0].endswith("'") else ())
    by = {}
    for e in edges:
        by.setdefault(e[0], []).append(e)
    out, seen, st = [], {root}, [root]
    while st:
        v = st.pop()
        for e in by.get(v, []):
            out.append((nm(v), tuple(nm(t) for t in e[1]), e[2], e[3]))
            for t in e[1]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
    return nm(root), out


def of_json(j):
    return [(n.get("sym", ""), n["span"][0], n["span"][1]) for n in j["nodes"]], [(e["head"], e.get("tails", []), e.get("score", 0.0), e.get("features", {})) for e in j["edges"]]


def ab_split(A, parts):
    root, E = A
    off = [0]
    for p in parts:
        off.append(off[-1] + len(p))
    new = [w for p in parts for w in p]
    ren = lambda n: (n[0], off[n[1]], off[n[2]], n[3])
    many = {}
    for h, tails, s, f in E:
        many[h] = many.get(h, 0) + 1
    out = []
    for h, tails, s, f in E:
        pre = many[h] == 1 and len(tails) == 1 and tails[0][3]
        nt = []
        for t in tails:
            if not t[3] or len(parts[t[1]]) == 1:
                nt.append(ren(t))
                continue
            for q in range(off[t[1]], off[t[2]]):
                w = (new[q], q, q + 1, True)
                if pre:
                    p = (h[0], q, q + 1, False)
                    nt.append(p)
                    if (p, (w,), 0.0, ()) not in out:
                        out.append((p, (w,), 0.0, ()))
                else:
                    nt.append(w)
        out.append((ren(h), tuple(nt), s, f))
    return ren(root), [(h, t, s, dict(f)) for h, t, s, f in out], new


def ab_flat(A):
    root, E = A
    by = {}
    for e in E:
        by.setdefault(e[0], []).append(e)
    done, out = {}, []

    def visit(n):
        if n in done:
            return done[n]
        if n not in by:
            done[n] = n
            return n
        lab, s, f, cur = n[0], 0.0, {}, n
        while len(by[cur]) == 1 and len(by[cur][0][1]) == 1 and by[cur][0][1][0] in by:
            e = by[cur][0]
            s += e[2]
            for k, v in e[3].items():
                f[k] = f.get(k, 0.0) + v
            cur = e[1][0]
            lab += "_" + cur[0]
        done[n] = (lab,) + n[1:]
        for h, t, s2, f2 in by[cur]:
            g = dict(f)
            for k, v in f2.items():
                g[k] = g.get(k, 0.0) + v
            out.append((done[n], tuple(visit(x) for x in t), s + s2, g))
        return done[n]
    r = visit(root)
    return r, out


def ab_case(A, ws):
    ren = lambda n: (ws[n[1]], n[1], n[2], True) if n[3] else n
    return ren(A[0]), [(h, tuple(ren(x) for x in t), s, f) for h, t, s, f in A[1]]


def helper(n):
    return not n[3] and n[0].endswith("'")


def collapse(A, cky):
    """derivations without the helper nodes: (head, nested tails or flat tails, score, feats)"""
    root, E = A
    by = {}
    for e in E:
        by.setdefault(e[0], []).append(e)
    memo = {}

    def exp(n):
        if not helper(n):
            return [(n,)]
        if n not in memo:
            memo[n] = []
            for h, t, s, f in by[n]:
                if s or any(f.values()):
                    raise ValueError("helper edge %s -> %s has a score of its own" % (h, t))
                memo[n] += seqs(t)
            memo[n] = sorted(set(memo[n]))
        return memo[n]

    def seqs(t):
        cur = [()]
        for x in t:
            cur = [a + b for a in cur for b in exp(x)]
        return cur

    def nest(n):
        if not helper(n):
            return n
        if len(by[n]) != 1:
            raise ValueError("helper %s has %d edges" % (n, len(by[n])))
        return ("HELPER", n[0], tuple(nest(x) for x in by[n][0][1]))
    out = []
    for h, t, s, f in E:
        if helper(h):
            continue
        if cky:
            out += [(h, x, s, f) for x in seqs(t)]
        else:
            out.append((h, tuple(nest(x) for x in t), s, f))
    return root, out


def same_edges(got, want, dedupe):
    """None or what differs"""
    def group(E):
        d = {}
        for h, t, s, f in E:
            d.setdefault((h, t), []).append((s, {k: v for k, v in f.items() if v}))
        return d
    g, w = group(got), group(want)
    for k in w:
        if k not in g:
            return "edge %s is missing" % (k,)
    for k in g:
        if k not in w:
            return "edge %s is new" % (k,)
        a, b = list(g[k]), list(w[k])
        eq = lambda x, y: close(x[0], y[0], 1e-4, 1e-4) and set(x[1]) == set(y[1]) and all(close(x[1][q], y[1][q], 1e-4, 1e-4) for q in x[1])
        if dedupe:
            if all(any(eq(x, y) for y in b) for x in a) and all(any(eq(x, y) for x in a) for y in b):
                continue
            return "edge %s has the scores and features %s, expected %s" % (k, a, b)
        if len(a) != len(b):
            return "edge %s occurs %d times, expected %d" % (k, len(a), len(b))
        for x in a:
            m = [y for y in b if eq(x, y)]
            if not m:
                return "edge %s has the scores and features %s, expected one of %s" % (k, x, b)
            b.remove(m[0])
    return None


class Opts(object):
    def __init__(self, c, rng, d, tree):
        self.args, self.how = [], []
        self.bin = self.case = self.rx = self.lm = None
        self.flat = False
        while not self.args:
            if rng.random() < 0.35:
                self.rx = rng.choice(REGEX)
                self.args += ["-split", self.rx]
            if rng.random() < 0.3:
                vocab = ["foo", "bar", "the", "foobar", "well", "known", "a", "b", "foos", "sbar", "FOO", "MIX", "ED"]
                rng.shuffle(vocab)
                self.lm = arpa.gen(rng, vocab[:rng.randint(5, 13)], 2)
                self.minchar = rng.choice([1, 2, 3, 3])
                self.thr = rng.choice([0.01, 0.05, 0.3, 0.001])
                self.fill = rng.choice([[], [], ["s"], ["s", "o"], ["o"]])
                p = c.write("%s.arpa" % d, self.lm.text())
                self.args += ["-compoundsplit", p, "-compoundsplit_minchar", str(self.minchar), "-compoundsplit_threshold", str(self.thr)]
                if self.fill:
                    self.args += ["-compoundsplit_filler", ":".join(self.fill)]
            if rng.random() < 0.5:
                self.bin = rng.choice(["left", "right", "leftrp", "rightrp"] + ([] if tree else ["cky", "cky"]))
                self.args += ["-binarize", self.bin]
            if rng.random() < 0.4:
                self.flat = True
                self.args += ["-flatten", "true"]
            if rng.random() < 0.35:
                k = rng.choice(["low", "title", "true"])
                self.case = k
                if k == "true":
                    m = [rng.choice(["The", "the", "mixed", "Mixed", "fooBAR", "A", "x-Y", "eTÉ"]) for _ in range(rng.randint(0, 6))]
                    self.case = {w.lower(): w for w in m}
                    k = "true:model=" + c.write("%s.case" % d, "".join(w + rng.choice(["", " 3", " (2/3)"]) + "\n" for w in m))
                self.args += ["-case", k]

    def parts(self, ws):
        """([parts of each word], doubtful)"""
        out = [[w] for w in ws]
        bad = False
        if self.rx:
            out = [split_word(w, self.rx) for w in ws]
        if self.lm:
            import math
            p2 = []
            for p in out:
                q = []
                for w in p:
                    r, b = compound(w, self.lm, self.minchar, math.log10(self.thr), self.fill)
                    bad = bad or b
                    q.append(r)
                p2.append(q)
            return p2, bad
        return [[[w] for w in p] for p in out], bad

    def tree(self, t):
        parts, bad = self.parts(words(t))
        t, _ = tree_split(t, [[w for w, in p] if all(len(q) == 1 for q in p) else [i for i in range(len(p))] for p in parts]) if not self.lm else (t, 0)
        if self.lm:
            ws = words(t)
            if self.rx:
                t, _ = tree_split(t, [split_word(w, self.rx) for w in ws])
            flat = [q for p in parts for q in p]
            t, _ = tree_split(t, flat)
        if self.bin:
            t = tree_bin(t, self.bin[:-2] if self.bin.endswith("rp") else self.bin, self.bin.endswith("rp"))
        if self.flat:
            t = tree_flat(t)
        if self.case:
            t, _ = tree_relabel(t, case_words(words(t), self.case))
        return t, bad


class Ctx(object):
    def __init__(self, c, exe, ops):
        self.c, self.exe, self.ops = c, exe, ops

    def conv(self, i, o, args, text, key, data):
        r = common.run([self.exe, "-input_format", i, "-output_format", o] + args, text, timeout=120)
        if not self.c.expect(not r.crashed and not r.timeout and r.rc == 0, "crash:%s:%s" % (key, ">".join(r.frames(2))),
                             "tree-converter %s ended with %s" % (" ".join(args), r.why()), data):
            return None
        return r.out


def trees(x, i):
    c = x.c
    rng = c.sub("tree%d" % i)
    mixed = rng.random() < 0.4
    labels = rng.sample(LABELS, rng.choice([3, 6, len(LABELS)]))
    voc = SAFE if rng.random() < 0.7 else rng.sample(SAFE, 5)
    fmt = "rule" if mixed or rng.random() < 0.3 else "penn"
    B = [gen_tree(rng, labels, voc, rng.choice([1, 1, 2, 3, 5, 8, 13, 30]), mixed) for _ in range(12)]
    src = "".join(("()" if t is None else rule(t) if fmt == "rule" else penn_messy(rng, t)) + "\n" for t in B)
    o = Opts(c, rng, "tree%d" % i, True)
    of = rng.choice(["penn", "penn", "rule", "word", "mosesxml", "json"])
    data = {"input": src, "args": o.args, "in": fmt, "out": of}
    out = x.conv(fmt, of, o.args, src, "tree", data)
    if out is None:
        return
    ls = out.split("\n")[:-1]
    if not c.expect(len(ls) == len(B), "tree-count", "%d lines for %d trees" % (len(ls), len(B)), data):
        return
    tag = ",".join(sorted(a[1:] for a in o.args if a.startswith("-") and a[1:] in ("split", "compoundsplit", "binarize", "flatten", "case")))
    for t, l in zip(B, ls):
        e, bad = o.tree(t)
        if bad:
            continue
        if of == "json":
            j = json.loads(l)
            N, E = of_json(j)
            by = {}
            for h, tl, _, _ in E:
                by.setdefault(h, []).append(tl)
            if not c.expect(all(len(v) == 1 for v in by.values()), "tree:%s" % tag, "%s with %s: a node of the tree has several edges" % (penn(t)[:300], o.args), dict(data, tree=penn(t))):
                continue

            def unf(v):
                return T(N[v][0], [unf(k) for k in by[v][0]]) if v in by else N[v][0]
            g = penn(unf(0))
            c.expect(j["words"] == words(e) and g == penn(e), "tree:%s" % tag, "%s with %s gives %s, expected %s (words %s)" % (penn(t)[:300], o.args, g[:300], penn(e)[:300], j["words"]), dict(data, tree=penn(t)))
            keep = sorted(reach(E, 0))
            m = {v: k for k, v in enumerate(keep)}
            bad = spans_ok([N[v] for v in keep], [(m[q[0]], [m[z] for z in q[1]]) for q in E if q[0] in m], j["words"])
            c.expect(not bad, "tree-span:" + tag, "%s: %s" % (o.args, "; ".join(bad[:3])), dict(data, tree=penn(t)))
        else:
            want = {"penn": penn, "rule": rule, "word": lambda t: " ".join(words(t)), "mosesxml": moses}[of](e)
            c.expect(l == want, "tree:%s" % tag, "%s with %s gives %s, expected %s" % (penn(t)[:300], o.args, l[:400], want[:400]), dict(data, tree=penn(t)))
        c.count("trees transformed")
    c.case(("tree", i), True, {"args": o.args, "in": src[:200], "out": out[:200]})
    # sentences that were not parsed
    if i % 5 == 0:
        src = "()\n(S (NN a-b))\n()\n"
        out = x.conv("penn", "penn", o.args, src, "unparsed", dict(data, input=src))
        if out is not None:
            z = out.split("\n")
            c.expect(len(z) == 4 and z[0] == z[2] == "()", "unparsed", "with %s an empty tree gives %r" % (o.args, out), dict(data, input=src))


def forests(x, i):
    c = x.c
    rng = c.sub("forest%d" % i)
    labels = rng.sample(LABELS, rng.choice([3, 6, len(LABELS)]))
    F = []
    for _ in range(10):
        f = gen_forest(rng, labels, SAFE, sizes=(1, 2, 3, 4, 5, 6, 8, 10), maxk=rng.choice([2, 3, 5, 10]))
        f["edges"] = [(h, t, s, ft, []) for h, t, s, ft, tr in f["edges"]]
        if rng.random() < 0.4:
            rng.shuffle(f["edges"])
        F.append(f)
    o = Opts(c, rng, "forest%d" % i, False)
    text = "".join(jforest(f) + "\n" for f in F)
    data = {"input": text, "args": o.args}
    out = x.conv("json", "json", o.args, text, "forest", data)
    if out is None:
        return
    ls = out.split("\n")[:-1]
    if not c.expect(len(ls) == len(F), "forest-count", "%d lines for %d forests" % (len(ls), len(F)), data):
        return
    tag = ",".join(sorted(a[1:] for a in o.args if a.startswith("-") and a[1:] in ("split", "compoundsplit", "binarize", "flatten", "case")))
    for f, l in zip(F, ls):
        d = dict(data, forest=jforest(f), output=l)
        try:
            j = json.loads(l)
        except ValueError as e:
            c.violation("forest-json", "not JSON: %s" % e, d)
            continue
        A = abstract(f["nodes"], [e[:4] for e in f["edges"]], 0)
        first = f["edges"][0]
        parts, bad = o.parts(f["words"])
        if bad:
            continue
        ws = f["words"]
        if o.rx:
            A = ab_split(A, [split_word(w, o.rx) for w in ws])
            ws, A = A[2], A[:2]
        if o.lm:
            A = ab_split(A, [q for p in parts for q in p])
            ws, A = A[2], A[:2]
        base = A
        if o.flat:
            A = ab_flat(A)
        if o.case:
            ws = case_words(ws, o.case)
            A = ab_case(A, ws)
        c.expect(j["words"] == ws, "forest-words:" + tag, "%s: words %s, expected %s" % (o.args, j["words"], ws), d)
        N, E = of_json(j)
        heads = {e[0] for e in E}
        # where the root went
        roots = [v for v in range(len(N)) if (N[v] + (v not in heads,)) == A[0]]
        if not c.expect(len(roots) == 1, "forest-root:" + tag, "%s: %d nodes are the root %s" % (o.args, len(roots), A[0]), d):
            continue
        if roots[0] != 0:
            # the recorded defect: chart binarization numbers nodes as it meets them, helpers first
            cause = o.bin == "cky" and (first[0] != 0 or N[0][0].endswith("'"))
            c.expect(False, "cky-root" if cause else "forest-rootid:" + tag, "%s: the root is node %d, not node 0, which is %s" % (o.args, roots[0], N[0]), d)
        R, got = abstract(N, E, roots[0])
        keep = sorted(reach(E, roots[0]))
        m = {v: k for k, v in enumerate(keep)}
        bad = spans_ok([N[v] for v in keep], [(m[e[0]], [m[t] for t in e[1]]) for e in E if e[0] in m], j["words"])
        c.expect(not bad, "forest-span:" + tag, "%s: %s" % (o.args, "; ".join(bad[:3])), d)
        want = A
        if o.bin == "cky":
            long = {(h, t) for h, t, s, ft in A[1] if len(t) > 7}
            big = [(h, t) for h, t, s, ft in got if len(t) > 2 and (h, t) not in long]
            c.expect(not big, "forest-arity:cky", "an edge still has %d children: %s" % (len(big[0][1]) if big else 0, big[:1]), d)
            # the expansion grows quickly; the comparison is left out where it would explode
            try:
                R, got = collapse((R, got), True)
            except ValueError as e:
                c.violation("forest-helper:" + tag, "%s: %s" % (o.args, e), d)
                continue
        elif o.bin:
            b, rp = (o.bin[:-2], True) if o.bin.endswith("rp") else (o.bin, False)
            big = [(h, t) for h, t, s, ft in got if len(t) > 2]
            c.expect(not big, "forest-arity:" + o.bin, "an edge still has more than two children: %s" % big[:1], d)
            try:
                R, got = collapse((R, got), False)
            except ValueError as e:
                c.violation("forest-helper:" + tag, "%s: %s" % (o.args, e), d)
                continue
            # helper labels come from before flattening and the punctuation is judged there too
            names = {}
            if o.flat:
                names = flat_names(base)
            want2 = []
            orig = dict(zip([id(e) for e in A[1]], A[1]))
            for h, t, s, ft in A[1]:
                bot, lb = (names[h] if o.flat and h in names else (h[0], None))
                tl = (lambda n: names[n][1] if o.flat and n in names else n[0]) if o.flat else (lambda n: n[0])
                if o.case:
                    lowered = {}
                    for (hh, tt, ss, ff), (h0, t0, s0, f0) in zip(A[1], (ab_flat(base) if o.flat else base)[1]):
                        for p, q in zip(tt, t0):
                            lowered[p] = q
                    tl0 = tl
                    tl = lambda n: tl0(n) if not n[3] else lowered[n][0]
                nest = bin_nest(bot, list(t), b, rp, tl, bot + "'")
                conv = lambda n: ("HELPER", n[1], tuple(conv(q) for q in n[2])) if n[0] == "HELPER" else n
                want2.append((h, tuple(conv(q) for q in nest[1]), s, ft))
            want = (A[0], want2)
        diff = same_edges(got, want[1], o.bin == "cky")
        c.expect(not diff, "forest:%s" % tag, "%s: %s" % (o.args, diff), d)
        c.count("forests transformed")
        c.count("edges compared", len(want[1]))
    c.case(("forest", i), True, {"args": o.args})


def flat_names(A):
    """flattened name -> (label of the last node of its chain, label of the first)"""
    root, E = A
    by = {}
    for e in E:
        by.setdefault(e[0], []).append(e)
    out = {}
    for n in by:
        lab, cur = n[0], n
        while len(by[cur]) == 1 and len(by[cur][0][1]) == 1 and by[cur][0][1][0] in by:
            cur = by[cur][0][1][0]
            lab += "_" + cur[0]
        out[(lab,) + n[1:]] = (cur[0], n[0])
    return out


def reach(E, root):
    by = {}
    for e in E:
        by.setdefault(e[0], []).append(e[1])
    seen, st = {root}, [root]
    while st:
        for t in by.get(st.pop(), []):
            for v in t:
                if v not in seen:
                    seen.add(v)
                    st.append(v)
    return seen


def paths(F, k):
    """the k best derivations of the root: [(score, edges)]"""
    import heapq
    L = {}
    for v in F.order():
        if not F.by[v]:
            L[v] = [(0.0, ())]
            continue
        a = []
        for e in F.by[v]:
            cur = [(F.edges[e][2], (e,))]
            for t in F.edges[e][1]:
                cur = heapq.nlargest(k, [(s + s2, p + p2) for s, p in cur for s2, p2 in L[t]])
            a += cur
        L[v] = heapq.nlargest(k, a)
    return L[0]


def trim(x, i):
    c = x.c
    rng = c.sub("trim%d" % i)
    FS = []
    script = []
    for _ in range(6):
        F = forest.gen(rng, rng.choice([1, 2, 4, 8, 15, 30]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice(["unit", "wide", "unit"]))
        n = rng.choice([1, 1, 2, 3, 5, 20, 100])
        FS.append((F, n))
        script += ["fact\t1"] + F.script(0) + ["trim\t0\t1\t%d" % n, "dump\t1", "dump\t0"]
    data = {"stdin": "\n".join(script)}
    r = common.run([x.ops], "\n".join(script) + "\n", timeout=120)
    if not c.expect(not r.crashed and not r.timeout and r.rc == 0, "crash:trim:" + ">".join(r.frames(2)), "trimming ended with " + r.why(), data):
        return
    R = forest.Reader(r.out)
    for F, n in FS:
        try:
            R.ok()
            if not R.ok():
                c.violation("trim-refused", "trimming was refused", data)
                return
            d, d0 = R.dump(), R.dump()
        except (ValueError, EOFError) as e:
            c.violation("trim-answer", "unexpected answer: %s" % e, data)
            return
        best = paths(F, n + 1)
        if len(best) > n and abs(best[n][0] - best[n - 1][0]) < 1e-6 * max(1.0, abs(best[n][0])):
            c.count("trims with a tie at the threshold")
            continue
        want = {e for s, p in best[:n] for e in p}
        nodes = {0} | {v for e in want for v in [F.edges[e][0]] + list(F.edges[e][1])}
        dd = dict(data, n=n)
        nm = lambda v: F.nodes[v][0]
        a = sorted((nm(F.edges[e][0]), tuple(nm(t) for t in F.edges[e][1]), round(F.edges[e][2], 9), tuple(sorted(feat_sum(F.edges[e][3]).items()))) for e in want)
        N = d["nodes"]
        b = sorted((N[e["head"]]["sym"], tuple(N[t]["sym"] for t in e["tails"]), round(e["score"], 9), tuple(sorted((k, round(v, 9)) for k, v in e["feats"].items() if v))) for e in d["edges"])
        c.expect(a == b, "trim:edges", "the %d best derivations use the edges %s, trimming kept %s" % (n, a[:10], b[:10]), dd)
        c.expect(sorted(q["sym"] for q in N) == sorted(nm(v) for v in nodes), "trim:nodes", "nodes %s, expected %s" % (sorted(q["sym"] for q in N), sorted(nm(v) for v in nodes)), dd)
        c.expect(N and N[0]["sym"] == nm(0) and all(q["id"] == k for k, q in enumerate(N)), "trim:root", "node 0 is %s" % (N[0] if N else None), dd)
        c.expect(all(e["links"] == "111" for e in d["edges"]) and all(e["id"] == k for k, e in enumerate(d["edges"])), "trim:links", "the trimmed graph points outside itself: %s" % d["edges"][:5], dd)
        c.expect(all(sorted(q["edges"]) == sorted(k for k, e in enumerate(d["edges"]) if e["head"] == v) for v, q in enumerate(N)), "trim:lists", "the nodes' edge lists do not match the edges", dd)
        c.expect(len(d0["edges"]) == len(F.edges) and len(d0["nodes"]) == len(F.nodes), "trim:source", "trimming changed the source graph", dd)
        c.count("forests trimmed")
        c.count("edges trimmed away", len(F.edges) - len(want))
    c.case(("trim", i), True)


def feat_sum(f):
    return {k: round(v, 9) for k, v in f.items() if v}


def body(c):
    exe = common.build("asan", bins=["tree-converter"], drivers=["forestops"])
    x = Ctx(c, exe["tree-converter"], exe["forestops"])
    c.rule = ("random trees and packed forests through the sanitized tree-converter with every combination of -split, -compoundsplit, -binarize, -flatten and -case; the output is compared "
              "edge by edge with what an independent implementation of each option does, helper nodes expanded; n-best trimming through the API against an enumerator of the best derivations")
    c.assumptions = ["a node is known by its label and span, one node for each; labels do not end in ' so that helpers can be told apart", "chart binarization leaves edges of more than 7 children alone, as its code says",
                     "flattening of forests merges only nodes that have nothing but one child", "forests whose n-th and n+1-th best derivation tie are not used for trimming"]
    common.pmap(lambda i: trees(x, i), range(c.n(600, 5000)))
    common.pmap(lambda i: forests(x, i), range(c.n(600, 5000)))
    common.pmap(lambda i: trim(x, i), range(c.n(150, 1000)))


if __name__ == "__main__":
    common.main("C10", body)
