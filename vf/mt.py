"""Independent model of tree/forest decoding: generators, a pattern matcher over trees, and exhaustive
enumeration of derivations.  Nothing here uses the code under test."""
import itertools, json, math, re


class Node(object):
    __slots__ = ("sym", "span", "edges", "word", "uid")

    def __init__(self, sym, span, word=False):
        self.sym, self.span, self.word, self.edges = sym, span, word, []

    def __repr__(self):
        return "%s[%d,%d]" % (self.sym, self.span[0], self.span[1])


class Edge(object):
    __slots__ = ("tails", "feats", "score")

    def __init__(self, tails, feats=None, score=0.0):
        self.tails, self.feats, self.score = tails, feats or {}, score


# ---------------------------------------------------------------- source trees and forests

def gen_tree(rng, words, syms, maxar=4, punary=0.2, root="S"):
    def build(b, e, depth, top=False):
        sym = root if top else rng.choice(syms)
        n = Node(sym, (b, e))
        if e - b == 1:
            if depth < 6 and rng.random() < punary:
                n.edges = [Edge([build(b, e, depth + 1)])]
            else:
                n.edges = [Edge([Node(words[b], (b, e), True)])]
            return n
        if depth < 6 and rng.random() < punary / 2:
            n.edges = [Edge([build(b, e, depth + 1)])]
            return n
        k = rng.randint(2, min(maxar, e - b))
        cuts = [b] + sorted(rng.sample(range(b + 1, e), k - 1)) + [e]
        n.edges = [Edge([build(i, j, depth + 1) for i, j in zip(cuts, cuts[1:])])]
        return n
    return build(0, len(words), 0, True)


def gen_forest(rng, words, syms, ntrees=4, maxar=3):
    """packed forest: several random trees over the same words merged by (symbol, span);
    unary edges go only to later symbols, so that there are no cycles"""
    nodes, edges = {}, {}

    def get(sym, b, e):
        k = (sym, b, e)
        if k not in nodes:
            nodes[k] = Node(sym, (b, e))
            edges[k] = {}
        return k

    def build(b, e, lo, depth, sym=None):
        if sym is None:
            si = rng.randrange(lo, len(syms))
            sym = syms[si]
        else:
            si = -1
        k = get(sym, b, e)
        if si + 1 < len(syms) and rng.random() < 0.15 and depth < 5:
            ch = (build(b, e, si + 1, depth + 1),)
        elif e - b == 1:
            ch = (("w", b),)
        else:
            n = rng.randint(2, min(maxar, e - b))
            cuts = [b] + sorted(rng.sample(range(b + 1, e), n - 1)) + [e]
            ch = tuple(build(i, j, 0, depth + 1) for i, j in zip(cuts, cuts[1:]))
        if ch not in edges[k]:
            edges[k][ch] = round(-rng.random() * 3, 3)
        return k

    for _ in range(ntrees):
        rk = build(0, len(words), 0, 0, "ROOT")
    wn = {}
    for k, n in nodes.items():
        tot = math.log(sum(math.exp(s) for s in edges[k].values()))
        for ch, s in edges[k].items():
            tails = []
            for c in ch:
                if c[0] == "w" and len(c) == 2:
                    if c[1] not in wn:
                        wn[c[1]] = Node(words[c[1]], (c[1], c[1] + 1), True)
                    tails.append(wn[c[1]])
                else:
                    tails.append(nodes[c])
            n.edges.append(Edge(tails, {"parse": s - tot}, s))
    return nodes[rk]


def all_nodes(root):
    """nonterminal nodes, parents before children"""
    seen, post = set(), []
    stack = [(root, 0)]

    def rec(n):
        if id(n) in seen or n.word:
            return
        seen.add(id(n))
        for e in n.edges:
            for t in e.tails:
                rec(t)
        post.append(n)
    rec(root)
    return post[::-1]


def penn(n):
    if n.word:
        return n.sym
    return "(%s %s)" % (n.sym, " ".join(penn(t) for t in n.edges[0].tails))


def egret(root, words, no=1):
    out = []
    lines = []

    def nm(n):
        return n.sym if n.word else "%s[%d,%d]" % (n.sym, n.span[0], n.span[1] - 1)
    for n in all_nodes(root):
        for e in n.edges:
            lines.append("%s => %s ||| %s" % (nm(n), " ".join(nm(t) for t in e.tails), repr(e.score)))
    return "sentence %d :\n%s\n%s\n\n" % (no, " ".join(words), "\n".join(lines[::-1]))


# ---------------------------------------------------------------- rules

class Rule(object):
    """src: pattern tree ('SYM', [children]) with children ('"', word) | ('x', i, SYM) | pattern;
    trg: list over factors of (list of tokens: word string or int NT index, label or None)"""
    __slots__ = ("src", "trg", "feats", "srcstr", "ntsyms")

    def __init__(self, src, trg, feats):
        self.src, self.trg, self.feats = src, trg, feats
        self.srcstr = src_string(src)

    def trgstr(self):
        out = []
        for toks, label in self.trg:
            s = []
            for t in toks:
                if isinstance(t, tuple):
                    s.append("x%d:%s" % t if t[1] else "x%d" % t[0])
                else:
                    s.append('"%s"' % t)
            r = " ".join(s)
            if label:
                r += " @ " + label
            out.append(r)
        return " |COL| ".join(out)

    def line(self):
        return "%s ||| %s ||| %s" % (self.srcstr, self.trgstr(), feat_str(self.feats))


def feat_str(f):
    return " ".join("%s=%s" % (k, repr(v)) for k, v in f.items())


def src_string(p):
    if p[0] == '"':
        return '"%s"' % p[1]
    if p[0] == 'x' and len(p) == 3:
        return "x%d:%s" % (p[1], p[2])
    return "%s ( %s )" % (p[1], " ".join(src_string(c) for c in p[2]))


def sample_fragment(rng, node, pdown=0.4, maxdepth=3):
    """('n', SYM, children) cut out of the forest at `node`; variables numbered left to right"""
    cnt = [0]
    syms = []

    def rec(n, d):
        e = rng.choice(n.edges)
        ch = []
        for t in e.tails:
            if t.word:
                ch.append(('"', t.sym))
            elif d < maxdepth and rng.random() < pdown:
                ch.append(rec(t, d + 1))
            else:
                ch.append(('x', cnt[0], t.sym))
                syms.append(t.sym)
                cnt[0] += 1
        return ('n', n.sym, ch)
    return rec(node, 0), syms


def gen_rules(rng, roots, nrules, trgvocab, featnames, nfact=1, drop=0.0, labels=None, dyadic=True, pdown=0.4):
    """rules that match fragments of the given forests, plus near misses"""
    nodes = [n for r in roots for n in all_nodes(r)]
    rules = []
    srcs = []
    for _ in range(nrules):
        if srcs and rng.random() < 0.35:
            frag, syms = rng.choice(srcs)
        else:
            frag, syms = sample_fragment(rng, rng.choice(nodes), pdown)
            if rng.random() < 0.08:
                frag = corrupt(rng, frag, [n.sym for n in nodes])
                syms = []
                _collect(frag, syms)
            srcs.append((frag, syms))
        trg = []
        for f in range(nfact):
            idx = list(range(len(syms)))
            rng.shuffle(idx)
            if drop and idx and rng.random() < drop:
                idx = idx[:-1]
            toks = [(i, (labels and rng.choice(labels)) or syms[i]) for i in idx]
            for _w in range(rng.choice([0, 0, 1, 1, 2]) if toks else rng.choice([0, 1, 1, 2])):
                toks.insert(rng.randint(0, len(toks)), rng.choice(trgvocab))
            trg.append((toks, (labels and rng.choice(labels)) or frag[1]))
        feats = {}
        for f in rng.sample(featnames, rng.randint(1, min(3, len(featnames)))):
            feats[f] = rng.randint(-12, 12) / 4.0 if dyadic else round(rng.uniform(-3, 3), 4)
        feats = {k: v for k, v in feats.items() if v != 0} or {featnames[0]: 1.0}
        rules.append(Rule(frag, trg, feats))
    return rules


def _collect(p, out):
    if p[0] == 'x':
        out.append(p[2])
    elif p[0] == 'n':
        for c in p[2]:
            _collect(c, out)


def corrupt(rng, p, syms):
    """a source side that differs slightly from one that matches"""
    ch = list(p[2])
    i = rng.randrange(len(ch))
    c = ch[i]
    if c[0] == 'x':
        ch[i] = ('x', c[1], rng.choice(syms))
    elif c[0] == '"':
        ch[i] = ('"', c[1] + "s")
    else:
        ch[i] = ('n', rng.choice(syms), c[2])
    return ('n', p[1], ch)


def match(pat, node):
    """all ways `pat` matches at `node`: list of (tails in order, summed edge features)"""
    if node.word or pat[1] != node.sym:
        return []
    res = []
    for e in node.edges:
        if len(e.tails) != len(pat[2]):
            continue
        parts = [((), dict(e.feats))]
        for c, t in zip(pat[2], e.tails):
            if c[0] == '"':
                opts = [((), {})] if (t.word and t.sym == c[1]) else []
            elif c[0] == 'x':
                opts = [((t,), {})] if (not t.word and t.sym == c[2]) else []
            else:
                opts = match(c, t)
            parts = [(a + b, addf(f, g)) for (a, f) in parts for (b, g) in opts]
            if not parts:
                break
        res += parts
    return res


def addf(f, g):
    if not g:
        return dict(f)
    r = dict(f)
    for k, v in g.items():
        r[k] = r.get(k, 0.0) + v
    return r


def nz(f, eps=1e-12):
    return {k: v for k, v in f.items() if abs(v) > eps}


class TEdge(object):
    """edge of the translation forest"""
    __slots__ = ("head", "tails", "feats", "trg", "trace", "score")

    def __init__(self, head, tails, feats, trg, trace):
        self.head, self.tails, self.feats, self.trg, self.trace = head, tails, feats, trg, trace


def translation_forest(root, words, rules, nfact=1, all_unk=False):
    """{node: [TEdge]}: rules matching at each node plus pass-through edges where nothing matches"""
    bysrc = {}
    for r in rules:
        bysrc.setdefault(r.srcstr, []).append(r)
    byroot = {}
    for s, rs in bysrc.items():
        byroot.setdefault(rs[0].src[1], []).append(rs)
    out = {}
    for n in all_nodes(root):
        es = []
        for rs in byroot.get(n.sym, []):
            for tails, f in match(rs[0].src, n):
                for r in rs:
                    es.append(TEdge(n, list(tails), addf(r.feats, f), [t for t, _ in r.trg], (n.span, r.srcstr, r.trgstr())))
        if not es or all_unk:
            for e in n.edges:
                tails = [t for t in e.tails if not t.word]
                f = addf({"unk": 1.0}, e.feats)
                if tails:
                    trg = [[(i, "") for i in range(len(tails))]] * nfact
                    ss = "%s ( %s )" % (n.sym, " ".join("x%d:%s" % (i, t.sym) for i, t in enumerate(tails)))
                    ts = " |COL| ".join([" ".join("x%d" % i for i in range(len(tails)))] * nfact)
                else:
                    w = words[n.span[0]]
                    trg = [[w]] * nfact
                    ss = '%s ( "%s" )' % (n.sym, w)
                    ts = " |COL| ".join(['"%s"' % w] * nfact)
                es.append(TEdge(n, tails, f, trg, (n.span, ss, ts)))
        out[n] = es
    return out


def translation_forest_trg(root, words, rules, nfact=1, all_unk=False):
    """rules joined on target labels as well: nodes are (source node, label vector) plus one state per source node
    that accepts any label at the price of one 'unmatch_trg'.  Returns (root state, {state: [TEdge]})"""
    byroot = {}
    for r in rules:
        byroot.setdefault(r.src[1], {}).setdefault(r.srcstr, []).append(r)
    out = {}
    chi = {}
    heads = {}
    for n in all_nodes(root)[::-1]:
        c = Node("\u03c7", n.span)
        chi[n] = c
        heads[n] = {}
        out[c] = []
        for rs in byroot.get(n.sym, {}).values():
            for tails, f in match(rs[0].src, n):
                for r in rs:
                    hk = tuple(l for _, l in r.trg)
                    if hk not in heads[n]:
                        heads[n][hk] = Node(n.sym, n.span)
                        out[heads[n][hk]] = []
                    h = heads[n][hk]
                    pen = 0
                    ts = []
                    for i, t in enumerate(tails):
                        ck = tuple([x[1] for x in toks if isinstance(x, tuple) and x[0] == i][0] for toks, _ in r.trg)
                        if ck in heads[t]:
                            ts.append(heads[t][ck])
                        else:
                            pen += 1
                            ts.append(chi[t])
                    ff = addf(r.feats, f)
                    if pen:
                        ff = addf(ff, {"unmatch_trg": float(pen)})
                    out[h].append(TEdge(h, ts, ff, [t for t, _ in r.trg], (n.span, r.srcstr, r.trgstr())))
        for h in heads[n].values():
            out[c].append(TEdge(c, [h], {}, [[(0, "")]] * nfact, (n.span, "%s ( x0:\u03c7 )" % n.sym, " |COL| ".join(["x0"] * nfact))))
        if not heads[n] or all_unk:
            for e in n.edges:
                tails = [t for t in e.tails if not t.word]
                f = addf({"unk": 1.0}, e.feats)
                if tails:
                    out[c].append(TEdge(c, [chi[t] for t in tails], f, [[(i, "") for i in range(len(tails))]] * nfact,
                                        (n.span, "%s ( %s )" % (n.sym, " ".join("x%d:%s" % (i, t.sym) for i, t in enumerate(tails))),
                                         " |COL| ".join([" ".join("x%d" % i for i in range(len(tails)))] * nfact))))
                else:
                    w = words[n.span[0]]
                    out[c].append(TEdge(c, [], f, [[w]] * nfact, (n.span, '%s ( "%s" )' % (n.sym, w), " |COL| ".join(['"%s"' % w] * nfact))))
    return chi[root], out


def count_derivs(root, tf):
    memo = {}

    def cnt(n):
        if n in memo:
            return memo[n]
        memo[n] = 0
        tot = 0
        for e in tf.get(n, ()):
            k = 1
            for t in e.tails:
                k *= cnt(t)
            tot += k
        memo[n] = tot
        return tot
    return cnt(root)


class Deriv(object):
    __slots__ = ("feats", "score", "trg", "trace", "edges", "tree")


def subst(trg, kids, fac):
    out = []
    for t in trg[fac]:
        if isinstance(t, tuple):
            out += kids[t[0]].trg[fac]
        else:
            out.append(t)
    return out


def enumerate_derivs(root, tf, weights, nfact=1, cap=200000):
    memo = {}

    def rec(n):
        if n in memo:
            return memo[n]
        res = []
        for e in tf.get(n, ()):
            for kids in itertools.product(*[rec(t) for t in e.tails]):
                d = Deriv()
                f = dict(e.feats)
                for k in kids:
                    f = addf(f, k.feats)
                d.feats = f
                d.trg = [subst(e.trg, kids, i) for i in range(nfact)]
                tr = [e.trace + (tuple(sorted(nz(e.feats).items())),)]
                ed = [e]
                for k in kids:
                    tr += k.trace
                    ed += k.edges
                d.trace = tr
                d.edges = ed
                d.tree = None
                d.score = sum(weights.get(k, 0.0) * v for k, v in f.items())
                res.append(d)
                if len(res) > cap:
                    raise OverflowError
        memo[n] = res
        return res
    return rec(root)


def compose_tree(d):
    """the source tree spelled by a derivation's rules (edges are in pre-order)"""
    pos = [0]

    def rec():
        e = d.edges[pos[0]]
        pos[0] += 1
        toks = e.trace[1].split(" ")
        kids = iter([rec() for _ in e.tails])
        return " ".join(next(kids) if re.match(r"x\d+:", t) else t for t in toks)
    return rec()


# ---------------------------------------------------------------- decoder output

def parse_feats(s):
    d = {}
    for t in s.split():
        k, v = t.rsplit("=", 1)
        d[k] = d.get(k, 0.0) + float(v)
    return d


def parse_nbest(text, nfact=1):
    """{sent: [(words per factor, score, feats, tree or None)]}; raises ValueError on a malformed record"""
    out = {}
    order = []
    for line in text.split("\n"):
        if line == "":
            continue
        c = line.split(" ||| ")
        if len(c) < 4:
            raise ValueError("malformed n-best record: " + line)
        words = [x.split() for x in (c[1].split(" |COL| ") if nfact > 1 else [c[1]])]
        out.setdefault(int(c[0]), []).append((words, float(c[2]), parse_feats(c[3]), c[4] if len(c) > 4 else None))
        order.append(int(c[0]))
    if order != sorted(order):
        raise ValueError("n-best records out of order")
    return out


def config(path_write, name, **kw):
    """write a travatar config file"""
    s = ""
    for k, v in kw.items():
        if isinstance(v, dict):
            s += "[%s]\n%s\n\n" % (k, "\n".join("%s=%s" % (a, repr(float(b))) for a, b in v.items()))
        elif isinstance(v, (list, tuple)):
            s += "[%s]\n%s\n\n" % (k, "\n".join(str(x) for x in v))
        else:
            s += "[%s]\n%s\n\n" % (k, v)
    return path_write(name, s)
