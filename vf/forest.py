"""Acyclic forests: generation, enumeration of derivations, and the driver script that builds them."""
import heapq, math


class Forest(object):
    """nodes: [(sym, l, r)], root 0; edges: [(head, [tails], score, {feat: val}, [factor word lists])]; NT i of a tail is the int i in a word list"""

    def __init__(self):
        self.nodes, self.edges, self.words = [], [], []

    def finish(self):
        self.by = [[] for _ in self.nodes]
        for i, e in enumerate(self.edges):
            self.by[e[0]].append(i)
        return self

    def order(self):
        """nodes reachable from the root, children before parents"""
        seen, out = set(), []
        for r in range(len(self.nodes)):
            st = [(r, 0)]
            while st:
                v, k = st.pop()
                if k == 0:
                    if v in seen:
                        continue
                    seen.add(v)
                    st.append((v, 1))
                    for e in self.by[v]:
                        for t in self.edges[e][1]:
                            if t not in seen:
                                st.append((t, 0))
                else:
                    out.append(v)
        return out

    def reachable(self):
        seen, st = set(), [0] if self.nodes else []
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            for e in self.by[v]:
                st += self.edges[e][1]
        return seen

    def count(self):
        c = {}
        for v in self.order():
            if not self.by[v]:
                c[v] = 1
                continue
            c[v] = 0
            for e in self.by[v]:
                p = 1
                for t in self.edges[e][1]:
                    p *= c[t]
                c[v] += p
        return c

    def max_size(self):
        """edges of the biggest derivation of any node"""
        z = {}
        for v in self.order():
            z[v] = max([1 + sum(z[t] for t in self.edges[e][1]) for e in self.by[v]] or [0])
        return max(z.values())

    def topk(self, k, scores=None):
        """the k best derivation scores of every node"""
        L = {}
        for v in self.order():
            if not self.by[v]:
                L[v] = [0.0]
                continue
            allc = []
            for e in self.by[v]:
                cur = [scores[e] if scores else self.edges[e][2]]
                for t in self.edges[e][1]:
                    cur = heapq.nlargest(k, [a + b for a in cur for b in L[t]])
                allc += cur
            L[v] = heapq.nlargest(k, allc)
        return L

    def best_strings(self, factors, limit):
        """for every node the best score of each distinct tuple of translations; None if too many"""
        L = {}
        for v in self.order():
            if not self.by[v]:
                return None
            d = {}
            for e in self.by[v]:
                h, tails, sc, ft, trg = self.edges[e]
                combos = [(sc, [])]
                for t in tails:
                    combos = [(a + b, s + [k]) for a, s in combos for k, b in L[t].items()]
                    if len(combos) > limit:
                        return None
                for s, ch in combos:
                    tr = []
                    for f in range(factors):
                        o = []
                        for w in (trg[f] if f < len(trg) else []):
                            o += ch[w][f] if isinstance(w, int) else [w]
                        tr.append(tuple(o))
                    tr = tuple(tr)
                    if tr not in d or d[tr] < s:
                        d[tr] = s
            if len(d) > limit:
                return None
            L[v] = d
        return L

    def check_path(self, path, factors):
        """(score, features, translations) of an edge sequence, or None if it is not a derivation of the root in pre-order"""
        pos = [0]
        tot = [0.0]
        feats = {}

        def rec(node):
            if pos[0] >= len(path):
                raise ValueError
            e = path[pos[0]]
            pos[0] += 1
            h, tails, sc, ft, trg = self.edges[e]
            if h != node:
                raise ValueError
            tot[0] += sc
            for k, v in ft.items():
                feats[k] = feats.get(k, 0.0) + v
            ch = [rec(t) for t in tails]
            out = []
            for f in range(factors):
                o = []
                for w in (trg[f] if f < len(trg) else []):
                    o += ch[w][f] if isinstance(w, int) else [w]
                out.append(o)
            return out
        try:
            tr = rec(0)
        except (ValueError, RecursionError):
            return None
        if pos[0] != len(path):
            return None
        return tot[0], feats, tr

    def inside_outside(self, scores=None):
        """log expected count of every edge"""
        sc = scores or [e[2] for e in self.edges]
        ins = {}
        o = self.order()
        for v in o:
            if not self.by[v]:
                ins[v] = 0.0
                continue
            ins[v] = lse([sc[e] + sum(ins[t] for t in self.edges[e][1]) for e in self.by[v]])
        out = {v: None for v in o}
        acc = {v: [] for v in o}
        acc[0].append(0.0)
        res = [None] * len(self.edges)
        reach = self.reachable()
        for v in reversed(o):
            if v not in reach:
                continue
            ov = 0.0 if v == 0 else lse(acc[v])
            for e in self.by[v]:
                p = ov + sc[e] + sum(ins[t] for t in self.edges[e][1]) - ins[v]
                res[e] = p
                for t in self.edges[e][1]:
                    acc[t].append(p)
        return res

    def script(self, g):
        s = ["new\t%d" % g]
        s += ["word\t%d\t%s" % (g, w) for w in self.words]
        s += ["node\t%d\t%s\t%d\t%d" % (g, n[0], n[1], n[2]) for n in self.nodes]
        for h, tails, sc, ft, trg in self.edges:
            s.append("edge\t%d\t%d\t%s\t%r\t%s\t%s\t" % (
                g, h, " ".join(map(str, tails)), sc, " ".join("%s=%r" % kv for kv in sorted(ft.items())),
                " ||| ".join(" ".join("x%d" % w if isinstance(w, int) else w for w in f) for f in trg)))
        return s


def lse(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(x - m) for x in v))


SCORES = {
    "unit": lambda r: r.uniform(-5, 0),
    "ties": lambda r: float(r.randint(-2, 1)),
    "half": lambda r: r.randint(-12, 12) / 2.0,
    "wide": lambda r: r.uniform(-1, 1) * 10 ** r.uniform(-3, 6),
    "steep": lambda r: r.choice([-2000.0, -800.0, 0.0, -1.0, 900.0]) + r.random(),
    "zero": lambda r: 0.0,
}


def gen(rng, n_nodes, max_edges, max_tails, kind, factors=1, feats=True, unreachable=True, words=("a", "b", "c", "a"), complete=False):
    """a random forest in which every node has an edge"""
    F = Forest()
    sc = SCORES[kind]
    perm = list(range(1, n_nodes))
    rng.shuffle(perm)
    ident = [0] + perm            # topological position -> node id
    F.nodes = [("N%d" % i, 0, 1) for i in range(n_nodes)]
    edges = []
    for p in range(n_nodes):
        for _ in range(rng.randint(1, max_edges)):
            k = rng.randint(0, max_tails) if p < n_nodes - 1 else 0
            if p == 0 and n_nodes > 1 and not _:
                k = max(1, k)
            hi = n_nodes - 1
            tails = [ident[rng.randint(p + 1, hi if rng.random() < 0.5 else min(hi, p + 3))] for _x in range(k)]
            trg = []
            for f in range(factors if complete or rng.random() < 0.95 else rng.randint(0, factors)):
                w = [rng.choice(words) for _x in range(rng.choice([0, 1, 1, 2]))]
                nts = list(range(k))
                if rng.random() < 0.1 and nts and not complete:
                    nts.pop(rng.randrange(len(nts)))
                if rng.random() < 0.05 and nts:
                    nts.append(rng.choice(nts))
                for x in nts:
                    w.insert(rng.randint(0, len(w)), x)
                trg.append(w)
            ft = {}
            if feats:
                for _x in range(rng.choice([0, 1, 2, 3])):
                    ft[rng.choice(["f1", "f2", "lm", "w_é", "x=y"[:1]])] = rng.choice([1.0, -1.0, 0.5, rng.uniform(-3, 3)])
            edges.append((ident[p], tails, sc(rng), ft, trg))
    rng.shuffle(edges)
    F.edges = edges
    if not unreachable:
        F.finish()
        reach = F.reachable()
        m = {v: i for i, v in enumerate(sorted(reach))}
        F.nodes = [F.nodes[v] for v in sorted(reach)]
        F.edges = [(m[h], [m[t] for t in tl], s, f, tr) for h, tl, s, f, tr in edges if h in reach]
    return F.finish()


class Reader(object):
    def __init__(self, out):
        self.l = out.split("\n")
        self.i = 0

    def line(self):
        if self.i >= len(self.l):
            raise EOFError
        self.i += 1
        return self.l[self.i - 1]

    def ok(self):
        return self.line() == "ok"

    def eq(self):
        """the answer of a comparison, after what it printed about the difference"""
        while True:
            l = self.line()
            if l.startswith("Q "):
                return l == "Q 1"

    def dump(self):
        d = self.line()
        if not d.startswith("D "):
            raise ValueError("expected a dump, got %r" % d)
        head, words = d.split("\t")
        _, nn, ne = head.split()
        N, E = [], []
        for _ in range(int(nn)):
            f = self.line().split("\t")
            N.append(dict(id=int(f[0][2:]), sym=f[1], span=tuple(map(int, f[2].split())), edges=[int(x) for x in f[3].split()], vit=f[4]))
        for _ in range(int(ne)):
            f = self.line().split("\t")
            E.append(dict(id=int(f[0][2:]), head=int(f[1]), tails=[int(x) for x in f[2].split()], score=float(f[3]),
                          feats=feats(f[4]), trg=f[5], src=f[6], links=f[7]))
        return dict(words=words, nodes=N, edges=E)

    def nbest(self):
        b = self.line()
        if not b.startswith("B "):
            raise ValueError("expected an n-best list, got %r" % b)
        out = []
        for _ in range(int(b[2:])):
            f = self.line().split("\t")
            out.append((float(f[0][2:]), [int(x) for x in f[1].split()], feats(f[2]), f[3], f[4], feats(f[5])))
        return out


def feats(s):
    d = {}
    for x in s.split(" "):
        if x:
            k, v = x.rsplit("=", 1)
            d[k] = d.get(k, 0.0) + float(v)
    return d


def feq(a, b, tol=1e-6):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol * max(1.0, abs(a.get(k, 0.0))) for k in set(a) | set(b))
