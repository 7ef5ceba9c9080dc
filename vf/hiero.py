"""Independent model of string decoding with synchronous grammars (exhaustive chart)."""
from mt import Node, TEdge, feat_str


class HRule(object):
    """src: list of words (str) and non-terminal numbers (int, in order); syms: source label per non-terminal;
    label: source head; trg: per factor (tokens with (index, label) tuples, head label)"""
    __slots__ = ("src", "syms", "label", "trg", "feats", "srcstr", "trgstr", "head", "kids")

    def __init__(self, src, syms, label, trg, feats):
        self.src, self.syms, self.label, self.trg, self.feats = src, syms, label, trg, feats
        self.srcstr = " ".join(["x%d:%s" % (t, syms[t]) if isinstance(t, int) else '"%s"' % t for t in src] + ["@", label])
        self.trgstr = " |COL| ".join(" ".join(["x%d:%s" % t if isinstance(t, tuple) else '"%s"' % t for t in toks] + ["@", l]) for toks, l in trg)
        self.head = (label,) + tuple(l for _, l in trg)
        self.kids = []
        for i in range(len(syms)):
            self.kids.append((syms[i],) + tuple([t[1] for t in toks if isinstance(t, tuple) and t[0] == i][0] for toks, _ in trg))

    def line(self):
        return "%s ||| %s ||| %s" % (self.srcstr, self.trgstr, feat_str(self.feats))

    unary = property(lambda self: len(self.src) == 1 and isinstance(self.src[0], int))


def matches(rule, words, b, e, limit, nodes):
    """all ways the source side covers words[b:e]: lists of child nodes"""
    out = []
    src = rule.src

    def rec(i, p, kids):
        left = len(src) - i
        if left == 0:
            if p == e:
                out.append(list(kids))
            return
        if e - p < left:
            return
        t = src[i]
        if isinstance(t, int):
            for q in range(p + 1, min(p + limit, e - left + 1) + 1):
                n = nodes.get((p, q), {}).get(rule.kids[t])
                if n is not None:
                    rec(i + 1, q, kids + [n])
        elif words[p] == t:
            rec(i + 1, p + 1, kids)
    rec(0, b, [])
    return out


def forest(words, grammars, unk, root, nfact=1, delete_unknown=False):
    """grammars: list of (rules, span limit).  Returns (root node or None, {node: [TEdge]})"""
    nodes, out = {}, {}

    def get(b, e, head):
        d = nodes.setdefault((b, e), {})
        if head not in d:
            d[head] = Node(head[0], (b, e))
            out[d[head]] = []
        return d[head]

    def add(rule, b, e, kids):
        h = get(b, e, rule.head)
        out[h].append(TEdge(h, kids, dict(rule.feats), [t for t, _ in rule.trg], ((b, e), rule.srcstr, rule.trgstr)))
    n = len(words)
    unkhead = (unk,) * (nfact + 1)
    for ln in range(1, n + 1):
        for b in range(n - ln + 1):
            e = b + ln
            if ln == 1 and unk:
                get(b, e, unkhead)
            for rules, limit in grammars:
                for r in rules:
                    if not r.unary:
                        for kids in matches(r, words, b, e, limit, nodes):
                            add(r, b, e, kids)
            un = [r for rules, limit in grammars for r in rules if r.unary and ln <= limit]
            more = True
            while more:
                more = False
                for r in un:
                    d = nodes.get((b, e), {})
                    if r.kids[0] in d and r.head not in d:
                        get(b, e, r.head)
                        more = True
            for r in un:
                k = nodes.get((b, e), {}).get(r.kids[0])
                if k is not None:
                    add(r, b, e, [k])
            if ln == 1 and unk:
                h = get(b, e, unkhead)
                if not out[h]:
                    w = words[b]
                    t = "" if delete_unknown else w
                    out[h].append(TEdge(h, [], {"unk": 1.0}, [[t] if t else []] * nfact,
                                        ((b, e), '"%s" @ %s' % (w, unk), " |COL| ".join(['"%s" @ %s' % (t, unk)] * nfact))))
    return nodes.get((0, n), {}).get((root,) * (nfact + 1)), out


def gen_rule(rng, sents, labels, heads, voc, featnames, nfact=1, maxnt=2, tlabels=None, kidlabels=None, words_only=False, dyadic=True, unary_ok=True):
    """a rule cut from a random stretch of a sentence, with sub-stretches replaced by non-terminals"""
    kidlabels = kidlabels or labels
    while True:
        w = rng.choice(sents)
        if not w:
            continue
        b = rng.randrange(len(w))
        e = min(len(w), b + rng.choice([1, 1, 2, 3, 4, 5]))
        toks = list(w[b:e])
        k = 0 if words_only else rng.choice([0, 0, 1, 1, 2, 2, 3])
        k = min(k, maxnt)
        src = toks
        for _ in range(k):
            free = [i for i, t in enumerate(src) if t is not None]
            if not free:
                break
            i = rng.choice(free)
            j = i + 1
            while j < len(src) and src[j] is not None and rng.random() < 0.4:
                j += 1
            src = src[:i] + [None] + src[j:]
        cnt = 0
        s2, syms = [], []
        for t in src:
            if t is None:
                s2.append(cnt)
                syms.append(rng.choice(kidlabels))
                cnt += 1
            else:
                s2.append(t)
        label = rng.choice(heads)
        if len(s2) == 1 and cnt == 1:
            # unary rules go to strictly later labels only
            if not unary_ok or labels.index(syms[0]) + 1 >= len(labels):
                continue
            later = [l for l in labels[labels.index(syms[0]) + 1:] if l in heads]
            if not later:
                continue
            label = rng.choice(later)
        trg = []
        for f in range(nfact):
            idx = list(range(cnt))
            if rng.random() < 0.5:
                rng.shuffle(idx)
            tl = (lambda s: rng.choice(tlabels)) if tlabels else (lambda s: s)
            toks = [(i, tl(syms[i])) for i in idx]
            for _ in range(rng.choice([0, 1, 1, 2]) if toks else rng.choice([0, 1, 1, 1, 2])):
                toks.insert(rng.randint(0, len(toks)), rng.choice(voc))
            trg.append((toks, tl(label)))
        feats = {}
        for f in rng.sample(featnames, rng.randint(1, min(3, len(featnames)))):
            feats[f] = rng.randint(-12, 12) / 4.0 if dyadic else round(rng.uniform(-3, 3), 4)
        feats = {a: v for a, v in feats.items() if v} or {featnames[0]: 1.0}
        return HRule(s2, syms, label, trg, feats)


def glue(x, s, nfact=1, feats=None):
    return [HRule([0], [x], s, [([(0, x)], s)] * nfact, feats or {"glue": 1.0}),
            HRule([0, 1], [s, x], s, [([(0, s), (1, x)], s)] * nfact, feats or {"glue": 1.0})]
