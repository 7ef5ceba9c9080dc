"""C11: rules extracted from parses, against a set-theoretic reading of the extraction algorithm."""
import itertools, json, math, os, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt
from common import close

VOC = ["a", "b", "c", "the", "dog", "犬", "x0", "@", "\"", "0", "|"]
TVOC = ["A", "B", "C", "la", "chien", "犬", "x1", "@", "7", "|"]
SYMS = ["NP", "VP", "PP", "N", "V", "-LRB-"]


class Ext(object):
    """the rule graph of one sentence pair"""

    def __init__(self, root, words, trg, align, order, lex):
        self.root, self.words, self.trg, self.align, self.order, self.lex = root, words, trg, align, order, lex
        self.nodes = mt.all_nodes(root)
        n = len(words)
        self.al = [sorted(set(j for i, j in align if i == k)) for k in range(n)]
        self.span, self.front = {}, {}
        for v in self.nodes:
            inside = set(j for k in range(*v.span) for j in self.al[k])
            outside = set(j for k in range(n) if not v.span[0] <= k < v.span[1] for j in self.al[k])
            self.front[v] = bool(inside) and not any(min(inside) <= j <= max(inside) for j in outside)
            self.span[v] = (min(inside), max(inside)) if inside else None
        self.frag = {}
        self.minimal = {v: [((1, f), s) for f, s in self.fragments(v)] for v in self.nodes if self.front[v]}
        self.comp = {}
        if self.front.get(root):
            for v in self.nodes:
                if self.front[v]:
                    self.composed(v)

    def fragments(self, v):
        """all ways to expand v down to admissible nodes and words: (tree, score); leaves: words (Node.word) or admissible nodes"""
        if v in self.frag:
            return self.frag[v]
        out = []
        for e in v.edges:
            opts = []
            for t in e.tails:
                if t.word or self.front[t]:
                    opts.append([(t, 0.0)])
                else:
                    opts.append(self.fragments(t))
            for c in itertools.product(*opts):
                out.append(((v, tuple(x for x, _ in c)), e.score + sum(s for _, s in c)))
        self.frag[v] = out
        return out

    def composed(self, v):
        if v in self.comp:
            return self.comp[v]
        out = []
        ln = v.span[1] - v.span[0]
        for (sz, f), s in self.minimal[v]:
            cur = [(1, f, s)]
            tails = variables(f)
            for t in tails:
                below = self.composed(t)
                new = []
                for (z, g, s1) in cur:
                    nt = len(variables(g))
                    for (z2, g2, s2) in below:
                        if z + z2 <= self.order or (self.lex > 0 and ln <= self.lex and nt == 1 and not variables(g2)):
                            new.append((z + z2, replace(g, t, g2), s1 + s2))
                cur = cur + new
                if len(cur) > 3000:
                    raise OverflowError
            out += cur
        self.comp[v] = out
        return out


def variables(f):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            for y in x[1]:
                rec(y)
        elif not x.word:
            out.append(x)
    rec(f)
    return out


def replace(f, v, g):
    if isinstance(f, tuple):
        return (f[0], tuple(replace(x, v, g) for x in f[1]))
    return g if f is v else f


def source(f):
    cnt = [0]
    ids = []

    def rec(x):
        if isinstance(x, tuple):
            return "%s ( %s )" % (x[0].sym, " ".join(rec(y) for y in x[1]))
        if x.word:
            ids.append(x.span[0])
            return '"%s"' % x.sym
        cnt[0] += 1
        return "x%d:%s" % (cnt[0] - 1, x.sym)
    return rec(f), ids


def rule_line(ext, f, hull, tails, labels):
    """hull: (first, last) target position of the head; tails: list of (first, last)"""
    src, sids = source(f)
    cover = {}
    for k, (b, e) in enumerate(tails):
        for j in range(b, e + 1):
            assert j not in cover
            cover[j] = k
    toks, tids, last = [], [], None
    for j in range(hull[0], hull[1] + 1):
        if j in cover:
            if cover[j] != last:
                last = cover[j]
                l = labels.get(tails[last]) if labels is not None else None
                toks.append("x%d%s" % (last, ":" + l if l else ""))
        else:
            toks.append('"%s"' % ext.trg[j])
            tids.append(j)
    h = labels.get(hull) if labels is not None else None
    if h:
        toks.append("@ " + h)
    al = ["%d-%d" % (i, j) for i, a in enumerate(sids) for j, b in enumerate(tids) if b in ext.al[a]]
    return (src, " ".join(toks), " ".join(al)), len(sids), len(tids), len(tails)


def rules(ext, attach, alen, labels, normalize, term, nonterm, thresh):
    """Counter of expected (rule, alignment) -> list of counts, plus the rules whose printing is left open"""
    root = ext.root
    n = len(ext.trg)
    if not ext.front[root]:
        return [], []
    nulls = [not any(j in a for a in ext.al) for j in range(n)]
    edges = []      # (head key, fragment, score, tail keys)
    if attach != "exhaustive":
        def hull(v):
            if v is root and attach == "top":
                return (0, n - 1)
            return ext.span[v]
        for v, rs in ext.comp.items():
            for z, f, s in rs:
                edges.append(((v, hull(v)), f, s, [(t, hull(t)) for t in variables(f)]))
        top = (root, hull(root))
        pseudo = []
    else:
        var = {}
        for v in ext.comp:
            b, e = ext.span[v]
            out = []
            i = b
            while i >= max(0, b - alen) and (i == b or nulls[i]):
                j = e
                while j < min(n, e + 1 + alen) and (j == e or nulls[j]):
                    out.append((i, j))
                    j += 1
                i -= 1
            var[v] = out
        for v, rs in ext.comp.items():
            for h in var[v]:
                for z, f, s in rs:
                    ts = variables(f)
                    for combo in itertools.product(*[var[t] for t in ts]):
                        # extensions of different children may not overlap, and stay within the head
                        pos = Counter()
                        ok = True
                        for (b, e), t in zip(combo, ts):
                            ext_pos = [j for j in range(b, e + 1) if not ext.span[t][0] <= j <= ext.span[t][1]]
                            ok &= all(h[0] <= j <= h[1] for j in ext_pos)
                            pos.update(ext_pos)
                        if ok and all(c == 1 for c in pos.values()):
                            edges.append(((v, h), f, s, [(t, x) for t, x in zip(ts, combo)]))
                    if len(edges) > 20000:
                        raise OverflowError
        top = "TOP"
        pseudo = [("TOP", None, 0.0, [(root, h)]) for h in var[root]]
    if normalize:
        by = {}
        for e in edges + pseudo:
            by.setdefault(e[0], []).append(e)
        ins = {}

        def inside(k):
            if k not in ins:
                ins[k] = sum(math.exp(e[2]) * prod(inside(t) for t in e[3]) for e in by.get(k, []))
            return ins[k]
        sys.setrecursionlimit(10000)
        inside(top)
        # outside: expected number of uses of each node per derivation, top-down
        order = []
        seen = set()

        def topo(k):
            if k in seen:
                return
            seen.add(k)
            for e in by.get(k, []):
                for t in e[3]:
                    topo(t)
            order.append(k)
        topo(top)
        use = Counter({top: 1.0})
        cnt = {}
        for k in reversed(order):
            for x, e in enumerate(by.get(k, [])):
                p = use[k] * math.exp(e[2]) * prod(ins[t] for t in e[3]) / ins[k]
                cnt[id(e)] = p
                for t in e[3]:
                    use[t] += p
    must, may = [], []
    for e in edges:
        (v, h), f, s, ts = e
        line, ns, nt, nv = rule_line(ext, f, h, [x for _, x in ts], labels)
        c = math.exp(s) if not normalize else cnt.get(id(e), 0.0)
        if nv > nonterm or ns > term or nt > term:
            continue
        if c == 0 or c < thresh * (1 - 1e-6):
            continue
        full = nt + (n - (h[1] - h[0] + 1) if v is root and attach == "none" else 0)
        (may if full > term or abs(c - thresh) <= 1e-6 * thresh else must).append((line, c))
    return must, may


def prod(xs):
    r = 1.0
    for x in xs:
        r *= x
    return r


def gen_align(rng, n, m):
    mode = rng.random()
    if mode < 0.45:      # mostly monotone or locally reordered, sparse
        al = set()
        perm = list(range(n))
        for _ in range(rng.choice([0, 1, 2])):
            if n > 1:
                i = rng.randrange(n - 1)
                perm[i], perm[i + 1] = perm[i + 1], perm[i]
        for i in range(n):
            if rng.random() < 0.85:
                j = min(m - 1, max(0, int((perm[i] + rng.random()) * m / n)))
                al.add((i, j))
        if rng.random() < 0.3:
            al.add((rng.randrange(n), rng.randrange(m)))
        return al
    return set((rng.randrange(n), rng.randrange(m)) for _ in range(rng.choice([0, 1, 2, n, n, n + 2])))


def json_forest(root, words):
    nodes = mt.all_nodes(root)
    ids, out, edges = {}, [], []
    term = {}
    for v in nodes:
        ids[v] = len(ids)
        out.append({"id": ids[v], "sym": v.sym, "span": list(v.span)})
    k = len(ids)
    for v in nodes:
        for e in v.edges:
            ts = []
            for t in e.tails:
                if t.word:
                    if t.span not in term:
                        term[t.span] = k
                        out.append({"id": k, "sym": t.sym, "span": list(t.span)})
                        k += 1
                    ts.append(term[t.span])
                else:
                    ts.append(ids[t])
            edges.append({"id": len(edges), "head": ids[v], "tails": ts, "score": round(e.score, 5)})
            e.score = round(e.score, 5)
    return json.dumps({"nodes": out, "edges": edges, "words": words}, ensure_ascii=False)


def flatten_preterminals(rng, root):
    """let some words hang directly below a node with other children"""
    for v in mt.all_nodes(root):
        for e in v.edges:
            if len(e.tails) > 1:
                e.tails = [t.edges[0].tails[0] if not t.word and len(t.edges) == 1 and len(t.edges[0].tails) == 1 and t.edges[0].tails[0].word and rng.random() < 0.5 else t
                           for t in e.tails]


def one(c, i):
    rng = c.sub("case%d" % i)
    fmt = rng.choice(["penn", "penn", "json", "json-forest"])
    attach = rng.choice(["top", "top", "none", "exhaustive"])
    tlab = rng.random() < 0.25
    order = rng.choice([1, 1, 2, 3, 4, 5])
    term = rng.choice([10, 10, 10, 15, 3, 2, 1])
    nonterm = rng.choice([3, 3, 2, 1, 0]) if attach != "exhaustive" else rng.choice([20, 20, 4, 3, 2])
    lex = rng.choice([None, 0, 0, 1, 2, 3])
    alen = rng.choice([1, 1, 2, 3, 0])
    norm = rng.random() < 0.5
    thresh = rng.choice([0.0, 0.0, 0.01, 0.2]) if norm else 0.0
    count = rng.random() < 0.1
    sents = []
    for _ in range(200):
        if len(sents) >= rng.randint(3, 6):
            break
        n = rng.choice([1, 2, 3, 4, 5, 6, 7])
        m = rng.choice([1, 2, 3, 4, 5, 6, 7])
        if term >= 10 and rng.random() < 0.12:      # many words on one or both sides of a rule
            n, m = rng.choice([(2, 12), (3, 13), (4, 11), (12, 3), (11, 11), (13, 12)])
        words = [rng.choice(VOC) for _ in range(n)]
        trg = [rng.choice(TVOC) for _ in range(m)]
        if fmt == "json-forest":
            root = mt.gen_forest(rng, words, SYMS[:4], rng.randint(2, 4))
            line = json_forest(root, words)
        else:
            root = mt.gen_tree(rng, words, SYMS, root="S")
            if fmt == "penn":
                line = mt.penn(root)
            else:
                flatten_preterminals(rng, root)
                for v in mt.all_nodes(root):
                    for e in v.edges:
                        e.score = -rng.random() if rng.random() < 0.3 else 0.0
                line = json_forest(root, words)
        al = gen_align(rng, n, m)
        labels = None
        tline = " ".join(trg)
        if tlab:
            troot = mt.gen_tree(rng, trg, ["TA", "TB", "TC"], root="TS")
            tline = mt.penn(troot)
            labels = {}
            for v in reversed(mt.all_nodes(troot)):
                labels[(v.span[0], v.span[1] - 1)] = v.sym
        try:
            ext = Ext(root, words, trg, al, order, term if lex is None else lex)
            must, may = rules(ext, attach, alen, labels, norm, term, nonterm, thresh)
        except OverflowError:
            continue
        if sum(len(x) for x in ext.comp.values()) > 2000 or (attach == "exhaustive" and any(len(variables(f)) > nonterm for v in ext.minimal for (_, f), _ in ext.minimal[v])):
            continue
        sents.append((line, tline, " ".join("%d-%d" % x for x in sorted(al)), must, may, ext))
    pre = "c%d." % i
    fs = [c.write(pre + k, "".join(s[j] + "\n" for s in sents)) for j, k in enumerate(["src", "trg", "al"])]
    cmd = [c.exe["forest-extractor"], "-input_format", "penn" if fmt == "penn" else "json", "-output_format", "penn" if tlab else "word", "-binarize", "none",
           "-compose", str(order), "-attach", attach, "-attach_len", str(alen), "-term_len", str(term), "-nonterm_len", str(nonterm),
           "-normalize_probs", "true" if norm else "false", "-partial_count_thresh", str(thresh), "-count_rules", "true" if count else "false"]
    if lex is not None:
        cmd += ["-src_lex_len", str(lex)]
    r = common.run(cmd + fs)
    data = {"cmd": cmd[1:], "src": [s[0] for s in sents], "trg": [s[1] for s in sents], "align": [s[2] for s in sents]}
    key = "%s-%s" % (fmt, attach)
    if not c.expect(r.rc == 0, key + "-died", "forest-extractor " + r.why(), data):
        return
    if count:
        got = [l for l in r.out.split("\n") if l]
        c.expect(len(got) == len(sents), key + "-countlines", "%d counts for %d sentences" % (len(got), len(sents)), data)
        for s, g in zip(sents, got):
            c.case((fmt, "count", i, s[0]), True)
            c.expect(len(s[3]) <= int(g) <= len(s[3]) + len(s[4]), key + "-count", "%s rules counted, %d expected for %s" % (g, len(s[3]), s[0]), data)
        return
    got = {}
    for l in r.out.split("\n"):
        if l == "":
            continue
        f = l.split(" ||| ")
        if len(f) == 3 and f[2].endswith(" |||"):      # an empty alignment column is still a column
            f = f[:2] + [f[2][:-4], ""]
        if not c.expect(len(f) == 4, key + "-format", "malformed rule " + l, data):
            return
        got.setdefault((f[0], f[1].strip(), f[3]), []).append(float(f[2]))
    must, may = {}, {}
    for s in sents:
        c.case((fmt, attach, order, s[0], s[1], s[2]), len(s[3]) > 1, {"src": s[0], "trg": s[1], "align": s[2], "rules": len(s[3])})
        for l, x in s[3]:
            must.setdefault(l, []).append(x)
        for l, x in s[4]:
            may.setdefault(l, []).append(x)
    c.count("rules expected", sum(len(x) for x in must.values()))
    c.count("rules printed", sum(len(x) for x in got.values()))
    for l in set(must) | set(got):
        a, b, o = sorted(must.get(l, [])), sorted(got.get(l, [])), may.get(l, [])
        if o:
            c.expect(len(a) <= len(b) <= len(a) + len(o), key + "-number", "rule %s printed %d times, %d-%d expected" % (" ||| ".join(l), len(b), len(a), len(a) + len(o)), data)
            continue
        if not c.expect(len(a) == len(b), key + ("-missing" if len(a) > len(b) else "-extra"), "rule %s printed %d times, %d expected" % (" ||| ".join(l), len(b), len(a)), data):
            continue
        c.expect(all(close(x, y, 2e-5, 1e-9) for x, y in zip(a, b)), key + "-weight", "rule %s has counts %s, expected %s" % (" ||| ".join(l), b, a), data)


def body(c):
    c.rule = "a sentence pair counts when more than one rule is expected; identity = (format, attachment, composition, source, target, alignment)"
    c.assumptions = ["spans of forest nodes are consistent", "attach=none leaves open whether unaligned words outside the root's material count towards term_len"]
    c.exe = common.build("asan", bins=["forest-extractor"])
    common.pmap(lambda i: one(c, i), range(c.n(2400, 20000)))


common.main("C11", body)
