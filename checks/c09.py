#!/usr/bin/env python3
"""C09: trees and forests carried from format to format, read back by independent parsers."""
import json, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common
from common import close

WORDS = ["a", "b", "the", "dog", "x0", "x1", "犬", "é", "0", "42", "3.14", "-", "\"", "'", "&", "<b>", "\\", "\\n", "{", "}", "[", "a[1]", ",", ".", ":", "@", "=", "a=b",
         "-LRB-", "-RRB-", "|", "||", "$", "%", "null", "true", "\"q\"", "''", "``", "/", "a/b", "#", "*", "~", "^", "😀", "A", "The", "-1"]
LABELS = ["S", "NP", "VP", "NN", "X", "NP-SBJ", "PRP$", ".", ",", "``", "''", ":", "-LRB-", "ADJP|x", "NP^g", "S'", "NP&CC", "\\", "a\"b", "\"", "犬", "é", "1", "S[0]", "<s>", "=", "@NP", "NP=2"]


class T(object):
    __slots__ = ("lab", "kids")

    def __init__(self, lab, kids):
        self.lab, self.kids = lab, kids


def words(t):
    return [t] if isinstance(t, str) else [w for k in t.kids for w in words(k)]


def gen_tree(rng, labels, voc, n, mixed=False, depth=0):
    """a random tree over n words; mixed: words may have phrases for sisters"""
    if n == 1:
        t = T(rng.choice(labels), [rng.choice(voc)])
        while rng.random() < 0.25 and depth < 40:
            t = T(rng.choice(labels), [t])
            depth += 1
        return t
    k = rng.randint(2, min(n, rng.choice([2, 2, 3, 4, 9])))
    cuts = sorted(rng.sample(range(1, n), k - 1))
    sizes = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    kids = []
    for s in sizes:
        kids.append(rng.choice(voc) if mixed and s == 1 and rng.random() < 0.4 else gen_tree(rng, labels, voc, s, mixed, depth + 1))
    t = T(rng.choice(labels), kids)
    while rng.random() < 0.15:
        t = T(rng.choice(labels), [t])
    return t


def penn(t):
    return t if isinstance(t, str) else "(" + t.lab + "".join(" " + penn(k) for k in t.kids) + ")"


def penn_messy(rng, t):
    """the same tree with other white space"""
    ws = lambda m: "".join(rng.choice(" \n\t ") for _ in range(rng.randint(m, 3)))
    if isinstance(t, str):
        return t
    if isinstance(t.kids[0], str):
        return "(" + ws(0) * 0 + t.lab + ws(1) + t.kids[0] + ")" + ws(0)
    return "(" + t.lab + ws(1) + "".join(penn_messy(rng, k) + ws(0) for k in t.kids) + ")" + ws(0)


def rule(t):
    return '"%s"' % t if isinstance(t, str) else t.lab + " ( " + "".join(rule(k) + " " for k in t.kids) + ")"


XML = [("&", "&amp;"), ('"', "&quot;"), ("'", "&apos;"), ("<", "&lt;"), (">", "&gt;")]


def xml(s):
    for a, b in XML:
        s = s.replace(a, b)
    return s


def moses(t):
    return xml(t) if isinstance(t, str) else '<tree label="%s">' % xml(t.lab) + "".join(" " + moses(k) for k in t.kids) + " </tree>"


def parse_penn(s):
    toks = re.findall(r"[()]|[^\s()]+", s)
    st = [T("", [])]
    for i, x in enumerate(toks):
        if x == "(":
            st.append(T(None, []))
        elif x == ")":
            if len(st) < 2:
                raise ValueError(s)
            k = st.pop()
            st[-1].kids.append(k)
        elif st[-1].lab is None:
            st[-1].lab = x
        else:
            st[-1].kids.append(x)
    if len(st) != 1 or len(st[0].kids) != 1:
        raise ValueError(s)
    return st[0].kids[0]


def key(t):
    return t if isinstance(t, str) else (t.lab,) + tuple(key(k) for k in t.kids)


def num(x):
    return float("%.6g" % x)


# forests: dict(nodes=[(sym or None, l, r, extra)], edges=[(head, tails, score, feats, trg)], words=[...]); terminals are nodes without edges
def spans_ok(nodes, edges, words_):
    """every node's span is the union of its words' positions, for all of its edges"""
    by = {}
    for e in edges:
        by.setdefault(e[0], []).append(e[1])
    bad = []
    for v, (sym, l, r) in enumerate(nodes):
        if v not in by:
            if not (0 <= l and r == l + 1 and r <= len(words_) and words_[l] == sym):
                bad.append("terminal %d %r has the span [%d, %d] of words %s" % (v, sym, l, r, words_))
            continue
        for tails in by[v]:
            if not tails:
                continue
            pos = l
            for t in tails:
                if nodes[t][1] != pos:
                    bad.append("child %d of node %d starts at %d, should be at %d" % (t, v, nodes[t][1], pos))
                pos = nodes[t][2]
            if pos != r:
                bad.append("node %d ends at %d, its children at %d" % (v, r, pos))
    return bad


def tree_graph(t):
    """what a tree looks like as a graph: nodes in the order of reading, one edge for each phrase"""
    nodes, edges = [], []

    def rec(t, pos):
        me = len(nodes)
        if isinstance(t, str):
            nodes.append((t, pos, pos + 1))
            return me, pos + 1
        nodes.append(None)
        tails, p = [], pos
        e = len(edges)
        edges.append(None)
        for k in t.kids:
            c, p = rec(k, p)
            tails.append(c)
        nodes[me] = (t.lab, pos, p)
        edges[e] = (me, tails)
        return me, p
    rec(t, 0)
    return nodes, edges


def unfold(j):
    """tree behind a JSON graph in which every node has at most one edge"""
    by = {}
    for e in j["edges"]:
        if e["head"] in by:
            raise ValueError("two edges for node %d" % e["head"])
        by[e["head"]] = e.get("tails", [])
    used = []

    def rec(v):
        used.append(v)
        n = j["nodes"][v]
        if v not in by:
            return n.get("sym", "")
        return T(n.get("sym", ""), [rec(k) for k in by[v]])
    t = rec(0)
    if sorted(used) != list(range(len(j["nodes"]))):
        raise ValueError("nodes used: %s of %d" % (sorted(used)[:50], len(j["nodes"])))
    return t


def jforest(F):
    def esc(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    ns, es = [], []
    for v, (sym, l, r, x) in enumerate(F["nodes"]):
        s = '{"id": %d' % v
        if sym is not None:
            s += ', "sym": ' + esc(sym)
        s += ', "span": [%d, %d]' % (l, r)
        if x.get("trg"):
            s += ', "trg_span": [%s]' % ", ".join(map(str, x["trg"]))
        if x.get("fr"):
            s += ', "frontier": "%s"' % x["fr"]
        ns.append(s + "}")
    for i, (h, tails, sc, ft, trg) in enumerate(F["edges"]):
        s = '{"id": %d, "head": %d' % (i, h)
        if tails:
            s += ', "tails": [%s]' % ", ".join(map(str, tails))
        if trg:
            o = []
            for label, w, syms in trg:
                q = '{"label": %s' % (esc(label) if label is not None else "-1")
                if w:
                    q += ', "words": [%s]' % ", ".join(str(-1 - x) if isinstance(x, int) else esc(x) for x in w)
                if syms:
                    q += ', "syms": [%s]' % ", ".join(esc(x) if x is not None else "-1" for x in syms)
                o.append(q + "}")
            s += ', "trg": [%s]' % ", ".join(o)
        if ft:
            s += ', "features": {%s}' % ", ".join("%s: %s" % (esc(k), repr(v)) for k, v in ft.items())
        if sc:
            s += ', "score": %r' % sc
        es.append(s + "}")
    return '{"nodes": [%s], "edges": [%s], "words": [%s]}' % (", ".join(ns), ", ".join(es), ", ".join(esc(w) for w in F["words"]))


def gen_forest(rng, labels, voc, egret=False, trg=False, sizes=(1, 1, 2, 3, 4, 5, 7), maxk=3):
    """a packed forest over a sentence: chart cells (label, span) with several edges, every node reachable"""
    n = rng.choice(sizes)
    ws = [rng.choice(voc) for _ in range(n)]
    nodes, edges, idx, term = [], [], {}, {}
    labs = rng.sample(labels, min(len(labels), rng.choice([1, 2, 4])))
    sc = rng.choice([lambda: -rng.random(), lambda: float(-rng.randint(0, 3)), lambda: rng.uniform(-1, 1) * 10 ** rng.uniform(-4, 4), lambda: 0.0])
    todo = []

    def node(lab, l, r):
        if (lab, l, r) not in idx:
            idx[(lab, l, r)] = len(nodes)
            x = {}
            if not egret and rng.random() < 0.2:
                x = {"trg": sorted(rng.sample(range(6), rng.randint(1, 3))), "fr": rng.choice("YN")}
            nodes.append((lab, l, r, x))
            todo.append((lab, l, r))
        return idx[(lab, l, r)]

    def terminal(i):
        if i not in term:
            term[i] = len(nodes)
            nodes.append((ws[i], i, i + 1, {}))
        return term[i]
    rank = {l: i for i, l in enumerate(labs)}
    root = rng.choice(labs)
    node("TOP" if rng.random() < 0.5 else root, 0, n)
    rank["TOP"] = -1
    while todo:
        lab, l, r = todo.pop(rng.choice([0, -1]))
        v = idx[(lab, l, r)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            lower = [x for x in labs if rank[x] > rank[lab]]
            if lower and rng.random() < 0.25:
                tails = [node(rng.choice(lower), l, r)]
            elif r - l == 1:
                tails = [terminal(l)]
            else:
                k = rng.randint(2, min(maxk, r - l))
                cuts = sorted(rng.sample(range(l + 1, r), k - 1))
                tails = [node(rng.choice(labs), a, b) for a, b in zip([l] + cuts, cuts + [r])]
            ft, tr = {}, []
            if not egret and rng.random() < 0.5:
                for _x in range(rng.randint(1, 3)):
                    ft[rng.choice(["f", "parse", "w_\"", "a\\b", "x.y", "é", "1", "f=g", "{", "trg"])] = num(rng.choice([1.0, -1.0, 0.25, rng.uniform(-9, 9), 1e-7, 123456.0]))
            if trg and rng.random() < 0.7:
                for _x in range(rng.choice([1, 1, 2])):
                    w = [rng.choice([x for x in voc if not re.match(r"^-\d+$", x)] or ["x"]) for _y in range(rng.randint(0, 3))]
                    syms = []
                    for q in range(len(tails)):
                        w.insert(rng.randint(0, len(w)), q)
                        syms.append(rng.choice(labs + [None]))
                    full = rng.random() < 0.5
                    tr.append((rng.choice(labs) if full else None, w, syms if full else []))
            s = num(sc())
            if egret and [e for e in edges if e[0] == v and e[1] == tails]:
                continue
            edges.append((v, tails, s, ft, tr))
    return dict(nodes=nodes, edges=edges, words=ws)


def egret_text(F, sid):
    out = ["sentence %d :" % sid, " ".join(F["words"])]

    def nm(v):
        sym, l, r, _ = F["nodes"][v]
        return sym if v not in heads else "%s[%d,%d]" % (sym, l, r - 1)
    heads = {e[0] for e in F["edges"]}
    for h, tails, sc, ft, tr in reversed(F["edges"]):
        out.append("%s => %s ||| %r" % (nm(h), " ".join(nm(t) for t in tails) + " " * (sid % 2), sc))
    return "\n".join(out) + "\n\n"


def norm_scores(F):
    by = {}
    for i, e in enumerate(F["edges"]):
        by.setdefault(e[0], []).append(i)
    res = [0.0] * len(F["edges"])
    for v, ids in by.items():
        m = max(F["edges"][i][2] for i in ids)
        z = m + math.log(math.fsum(math.exp(F["edges"][i][2] - m) for i in ids))
        for i in ids:
            res[i] = F["edges"][i][2] - z
    return res


def egret_blocks(s):
    """[(words, [(head, tails, score)])] of Egret output"""
    out, ls, i = [], s.split("\n"), 0
    while i < len(ls):
        if not ls[i].startswith("sentence"):
            if ls[i].strip():
                raise ValueError("unexpected line %r" % ls[i])
            i += 1
            continue
        ws = ls[i + 1]
        i += 2
        e = []
        while i < len(ls) and ls[i]:
            m = re.match(r"^(\S+) => (.*) \|\|\| (\S+)$", ls[i])
            if not m:
                raise ValueError("unexpected line %r" % ls[i])
            e.append((m.group(1), m.group(2).split(), float(m.group(3))))
            i += 1
        out.append((ws.split(), e))
    return out


class Ctx(object):
    def __init__(self, c, exe):
        self.c, self.exe = c, exe

    def conv(self, i, o, text, key, data):
        r = common.run([self.exe, "-input_format", i, "-output_format", o], text, timeout=120)
        if not self.c.expect(not r.crashed and not r.timeout and r.rc == 0, "crash:%s-%s:%s" % (i, o, ">".join(r.frames(2))),
                             "converting %s to %s ended with %s" % (i, o, r.why()), data):
            return None
        return r.out


def trees(x, i):
    """trees: penn and rule in, everything out, and back again"""
    c = x.c
    rng = c.sub("tree%d" % i)
    fmt = rng.choice(["penn", "rule", "penn", "json", "messy"])
    mixed = fmt in ("rule", "json") and rng.random() < 0.5
    voc = rng.sample(WORDS, rng.choice([2, 8, len(WORDS)]))
    labels = [l for l in rng.sample(LABELS, rng.choice([1, 3, len(LABELS)])) if not (fmt != "penn" and l.startswith('"') and l.endswith('"'))] or ["S"]
    N = 12
    ts = [gen_tree(rng, labels, voc, rng.choice([1, 1, 2, 3, 5, 8, 15] + ([60] if rng.random() < 0.1 else [])), mixed) for _ in range(N)]
    if fmt == "penn":
        text = "\n".join(penn(t) for t in ts) + "\n"
    elif fmt == "messy":
        text = "\n".join(penn_messy(rng, t) for t in ts) + "\n"
    elif fmt == "rule":
        text = "\n".join(rule(t) for t in ts) + "\n"
    else:
        F = []
        for t in ts:
            n, e = tree_graph(t)
            F.append(jforest(dict(nodes=[(a, b, d, {}) for a, b, d in n], edges=[(h, tl, 0.0, {}, []) for h, tl in e], words=words(t))))
        text = "\n".join(F) + "\n"
    fin = "penn" if fmt == "messy" else fmt
    data = {"format": fmt, "input": text}
    # Penn: all formats but the rule format, whose labels must not look like quoted words, can express all trees
    quoted = any(l.startswith('"') and l.endswith('"') and len(l) > 1 for l in labels)
    for o in ["penn", "rule", "json", "word", "mosesxml"]:
        out = x.conv(fin, o, text, "tree", data)
        if out is None:
            continue
        ls = out.split("\n")[:-1]
        if not c.expect(len(ls) == N and out.endswith("\n"), "tree-count:" + o, "%s to %s: %d lines for %d trees" % (fmt, o, len(ls), N), data):
            continue
        for t, l in zip(ts, ls):
            d = dict(data, output=l, tree=penn(t))
            if o == "penn":
                c.expect(l == penn(t), "tree:%s-penn" % fmt, "%s written as penn: %r, expected %r" % (fmt, l[:300], penn(t)[:300]), d)
            elif o == "rule":
                c.expect(l == rule(t), "tree:%s-rule" % fmt, "%s written as rule: %r, expected %r" % (fmt, l[:300], rule(t)[:300]), d)
            elif o == "word":
                c.expect(l == " ".join(words(t)), "tree:%s-word" % fmt, "words %r, expected %r" % (l[:300], words(t)), d)
            elif o == "mosesxml":
                c.expect(l == moses(t), "tree:%s-mosesxml" % fmt, "%s written as XML: %r, expected %r" % (fmt, l[:300], moses(t)[:300]), d)
            else:
                try:
                    j = json.loads(l)
                    got = unfold(j)
                except (ValueError, KeyError, IndexError) as e:
                    c.violation("tree:%s-json" % fmt, "JSON output is not that tree: %s: %s" % (e, l[:300]), d)
                    continue
                c.expect(key(got) == key(t) and j["words"] == words(t), "tree:%s-json" % fmt, "%s written as JSON reads %r, expected %r" % (fmt, penn(got)[:300], penn(t)[:300]), d)
                bad = spans_ok([(n.get("sym", ""), n["span"][0], n["span"][1]) for n in j["nodes"]], [(e["head"], e.get("tails", [])) for e in j["edges"]], j["words"])
                c.expect(not bad, "tree:span", "; ".join(bad[:3]), d)
                c.count("node spans checked", len(j["nodes"]))
        # and back
        if o in ("rule", "json") and not (o == "rule" and quoted):
            back = x.conv(o, fin, out, "tree-back", dict(data, between=out))
            if back is not None:
                want = x.conv(fin, fin, text, "tree-same", data)
                c.expect(back == want, "tree-back:%s-%s" % (fin, o), "%s to %s and back gives %r, expected %r" % (fin, o, back[:300], (want or "")[:300]), dict(data, between=out))
        c.count("trees converted", N)
    # Egret, for trees with no two nodes of one label and span, whose words do not look like nodes or separators
    ok = []
    for t in ts:
        n, e = tree_graph(t)
        hs = [n[h] for h, _ in e]
        if len(set(hs)) == len(hs) and not mixed and not any(w == "|||" or re.match(r".*\[\d+,\d+\]$", w) for w in words(t)):
            ok.append(t)
    if ok and fmt in ("penn", "rule"):
        w = penn if fmt == "penn" else rule
        src = "\n".join(w(t) for t in ok) + "\n"
        out = x.conv(fin, "egret", src, "tree-egret", data)
        if out is not None:
            back = x.conv("egret", fin, out, "tree-egret-back", dict(data, between=out))
            if back is not None:
                c.expect(back == src, "tree-back:%s-egret" % fin, "%s to egret and back gives %r, expected %r" % (fin, back[:300], src[:300]), dict(data, between=out))
            c.count("trees through egret", len(ok))
    c.case(("tree", i, text), True, {"kind": "trees", "format": fmt, "text": text[:200]})


def same_json(c, key_, F, j, scores, feats, data):
    nodes, edges = j["nodes"], j["edges"]
    if not c.expect(len(nodes) == len(F["nodes"]) and len(edges) == len(F["edges"]) and j["words"] == F["words"], key_ + ":size",
                    "%d nodes, %d edges, words %s; expected %d, %d, %s" % (len(nodes), len(edges), j["words"], len(F["nodes"]), len(F["edges"]), F["words"]), data):
        return
    for v, (sym, l, r, ex) in enumerate(F["nodes"]):
        n = nodes[v]
        c.expect(n["id"] == v and n.get("sym") == sym and n["span"] == [l, r], key_ + ":node", "node %s, expected %d %r [%d, %d]" % (n, v, sym, l, r), data)
        c.expect(n.get("trg_span", []) == ex.get("trg", []) and n.get("frontier") == ex.get("fr"), key_ + ":frontier", "node %s, expected %s" % (n, ex), data)
    for k, (h, tails, sc, ft, trg) in enumerate(F["edges"]):
        e = edges[k]
        c.expect(e["id"] == k and e["head"] == h and e.get("tails", []) == tails, key_ + ":edge", "edge %s, expected head %d tails %s" % (e, h, tails), data)
        s = scores[k]
        c.expect(close(e.get("score", 0.0), s, 1e-5, 1e-5), key_ + ":score", "edge %d has score %r, expected %r" % (k, e.get("score", 0.0), s), data)
        f = feats[k]
        g = e.get("features", {})
        c.expect(set(g) == set(a for a in f if abs(f[a]) > 0) and all(close(g[a], f[a], 1e-5, 1e-5) for a in g), key_ + ":features", "edge %d has features %s, expected %s" % (k, g, f), data)
        t = [(None if q.get("label", -1) == -1 else q["label"], [-1 - y if isinstance(y, int) else y for y in q.get("words", [])], [None if y == -1 else y for y in q.get("syms", [])]) for q in e.get("trg", [])]
        c.expect([q[1] for q in t] == [q[1] for q in trg], key_ + ":trg", "edge %d has the target words %s, expected %s" % (k, t, trg), data)
        c.expect([(q[0], q[2]) for q in t] == [(q[0], q[2]) for q in trg], key_ + ":trglabels", "edge %d has the target labels %s, expected %s" % (k, t, trg), data)


def forests(x, i):
    c = x.c
    rng = c.sub("forest%d" % i)
    voc = rng.sample(WORDS, rng.choice([1, 3, 8, len(WORDS)]))
    labels = rng.sample(LABELS, rng.choice([2, 5, len(LABELS)]))
    N = 10
    F = [gen_forest(rng, labels, voc, trg=rng.random() < 0.7) for _ in range(N)]
    text = "\n".join(jforest(f) for f in F) + "\n"
    data = {"input": text}
    out = x.conv("json", "json", text, "forest", data)
    if out is not None:
        ls = out.split("\n")[:-1]
        if c.expect(len(ls) == N, "forest-count", "%d lines for %d forests" % (len(ls), N), data):
            for f, l in zip(F, ls):
                try:
                    j = json.loads(l)
                except ValueError as e:
                    c.violation("forest-json", "not JSON: %s %r" % (e, l[:300]), data)
                    continue
                same_json(c, "json-json", f, j, [e[2] for e in f["edges"]], [e[3] for e in f["edges"]], dict(data, output=l))
        again = x.conv("json", "json", out, "forest-again", data)
        c.expect(again == out, "json-again", "reading the output again gives %r, expected %r" % ((again or "")[:300], out[:300]), data)
    # Egret in
    E = [gen_forest(rng, [l for l in labels], [w for w in voc if not re.match(r".*\[\d+,\d+\]$", w)] or ["a"], egret=True) for _ in range(N)]
    dead = rng.random() < 0.3
    text = ""
    for k, f in enumerate(E):
        if dead and k == N // 2:
            text += "sentence %d :\n%s\n\n\n" % (k, " ".join(f["words"]))
            f["nodes"], f["edges"] = [], []
        else:
            text += egret_text(f, k)
    data = {"input": text}
    out = x.conv("egret", "json", text, "egret", data)
    if out is not None:
        ls = out.split("\n")[:-1]
        if c.expect(len(ls) == N, "egret-count", "%d lines for %d forests" % (len(ls), N), data):
            for f, l in zip(E, ls):
                try:
                    j = json.loads(l)
                except ValueError as e:
                    c.violation("egret-json", "not JSON: %s %r" % (e, l[:300]), data)
                    continue
                d = dict(data, output=l)
                heads = {e[0] for e in f["edges"]}
                # the reader numbers nodes as it meets them; compare by label and span (words by position)
                jh = {e["head"] for e in j["edges"]}
                name = lambda v: (f["nodes"][v][0], f["nodes"][v][1], f["nodes"][v][2], v in heads)
                jn = lambda v: (j["nodes"][v].get("sym"), j["nodes"][v]["span"][0], j["nodes"][v]["span"][1], v in jh)
                ns = norm_scores(f)
                want = [(name(e[0]), [name(t) for t in e[1]]) for e in f["edges"]]
                got = [(jn(e["head"]), [jn(t) for t in e.get("tails", [])]) for e in j["edges"]]
                c.expect(j["words"] == f["words"], "egret-json:words", "words %s, expected %s" % (j["words"], f["words"]), d)
                c.expect(sorted(map(jn, range(len(j["nodes"])))) == sorted(map(name, range(len(f["nodes"])))), "egret-json:nodes",
                         "nodes %s, expected %s" % (sorted(map(jn, range(len(j["nodes"]))))[:40], sorted(map(name, range(len(f["nodes"]))))[:40]), d)
                if not c.expect(got == want, "egret-json:edges", "edges %s, expected %s" % (got[:20], want[:20]), d):
                    continue
                if f["nodes"]:
                    c.expect(jn(0) == name(0), "egret-json:root", "root %s, expected %s" % (jn(0), name(0)), d)
                for k, e in enumerate(j["edges"]):
                    c.expect(close(e.get("score", 0.0), ns[k], 2e-5, 2e-5), "egret-json:score", "edge %d has score %r, expected the share %r" % (k, e.get("score", 0.0), ns[k]), d)
                    p = e.get("features", {})
                    c.expect(set(p) <= {"parse"} and close(p.get("parse", 0.0), ns[k], 2e-5, 2e-5), "egret-json:features", "edge %d has features %s, expected parse=%r" % (k, p, ns[k]), d)
                bad = spans_ok([(n.get("sym", ""), n["span"][0], n["span"][1]) for n in j["nodes"]], [(e["head"], e.get("tails", [])) for e in j["edges"]], j["words"])
                c.expect(not bad, "egret-json:span", "; ".join(bad[:3]), d)
                c.count("node spans checked", len(j["nodes"]))
        eg = x.conv("json", "egret", out, "json-egret", dict(data, between=out))
        eg2 = x.conv("egret", "egret", text, "egret-egret", data)
        for nm, o in (("json-egret", eg), ("egret-egret", eg2)):
            if o is None:
                continue
            try:
                bl = egret_blocks(o)
            except (ValueError, IndexError) as e:
                c.violation(nm + ":format", "Egret output: %s" % e, dict(data, output=o))
                continue
            if c.expect(len(bl) == N, nm + ":count", "%d blocks for %d forests" % (len(bl), N), dict(data, output=o)):
                for f, (w, es) in zip(E, bl):
                    heads = {e[0] for e in f["edges"]}
                    nmv = lambda v: f["nodes"][v][0] if v not in heads else "%s[%d,%d]" % (f["nodes"][v][0], f["nodes"][v][1], f["nodes"][v][2] - 1)
                    ns = norm_scores(f)
                    want = [(nmv(e[0]), [nmv(t) for t in e[1]]) for e in f["edges"]][::-1]
                    c.expect(w == f["words"] and [(a, b) for a, b, _ in es] == want, nm + ":edges", "edges %s, expected %s" % (es[:10], want[:10]), dict(data, output=o))
                    c.expect(all(close(a[2], b, 2e-5, 2e-5) for a, b in zip(es, ns[::-1])), nm + ":score", "scores %s, expected %s" % ([a[2] for a in es], ns[::-1]), dict(data, output=o))
    c.count("forests converted", 4 * N)
    c.case(("forest", i, text), True, {"kind": "forests", "egret": text[:200]})


def wordsin(x, i):
    c = x.c
    rng = c.sub("word%d" % i)
    ls = [[rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 5, 30]))] for _ in range(15)]
    text = "".join(" " * rng.choice([0, 0, 1]) + (" " * rng.choice([1, 1, 2])).join(l) + " " * rng.choice([0, 0, 1]) + "\n" for l in ls)
    data = {"input": text}
    for o in ["word", "penn", "json"]:
        out = x.conv("word", o, text, "word", data)
        if out is None:
            continue
        got = out.split("\n")[:-1]
        if not c.expect(len(got) == len(ls), "word-count", "%d lines for %d" % (len(got), len(ls)), data):
            continue
        for w, g in zip(ls, got):
            t = T("X", [T("X", [a]) for a in w])
            if o == "json":
                j = json.loads(g)
                c.expect(key(unfold(j)) == key(t) and j["words"] == w and not spans_ok([(n["sym"], n["span"][0], n["span"][1]) for n in j["nodes"]],
                         [(e["head"], e.get("tails", [])) for e in j["edges"]], w), "word-json", "%r reads %s" % (w, g[:300]), data)
            else:
                c.expect(g == (penn(t) if o == "penn" else " ".join(w)), "word-" + o, "%r written as %r" % (w, g[:300]), data)
    # sentences that were not parsed, between others
    p = ["()" if rng.random() < 0.4 else "(S (NP a) (VP %s))" % rng.choice(["b", "c"]) for _ in range(8)]
    text = "\n".join(p) + "\n"
    for o, f in (("penn", lambda s: s), ("json", None), ("rule", lambda s: "" if s == "()" else rule(parse_penn(s))), ("mosesxml", lambda s: "" if s == "()" else moses(parse_penn(s))),
                 ("word", lambda s: "" if s == "()" else " ".join(words(parse_penn(s))))):
        out = x.conv("penn", o, text, "unparsed", {"input": text})
        if out is None:
            continue
        if f:
            c.expect(out == "".join(f(s) + "\n" for s in p), "unparsed:" + o, "%r, expected %r" % (out, [f(s) for s in p]), {"input": text})
        else:
            back = x.conv("json", "penn", out, "unparsed-back", {"input": out})
            c.expect(back == text, "unparsed:json", "through JSON %r, expected %r" % (back, text), {"input": text, "between": out})
    c.case(("word", i, text), True)


def negword(x):
    """a target word that looks like the number of a non-terminal"""
    text = ('{"nodes": [{"id": 0, "sym": "S", "span": [0, 1]}, {"id": 1, "sym": "a", "span": [0, 1]}], '
            '"edges": [{"id": 0, "head": 0, "tails": [1], "trg": [{"words": ["-1", -1]}]}], "words": ["a"]}\n')
    out = x.conv("json", "json", text, "negword", {"input": text})
    if out is not None:
        w = json.loads(out)["edges"][0]["trg"][0]["words"]
        x.c.expect(w == ["-1", -1], "json-negword", 'the target words ["-1", -1] are read as %s: the quoted word becomes a non-terminal' % w, {"input": text, "output": out})
        x.c.case(("negword",), True)


def body(c):
    exe = common.build("asan", bins=["tree-converter"])["tree-converter"]
    x = Ctx(c, exe)
    c.rule = ("trees and packed forests of random shape, labels and words, converted between the formats by the sanitized tree-converter; the output is parsed by "
              "independent parsers and compared with the generated structure; spans are recomputed from the words. every batch is non-trivial")
    c.assumptions = ["numbers are printed with 6 digits and compared to that precision", "Egret forests have one node for each label and span, words that do not look like nodes, and their root's edge last",
                     "labels and words hold no white space, parentheses or control characters"]
    negword(x)
    common.pmap(lambda i: trees(x, i), range(c.n(300, 2500)))
    common.pmap(lambda i: forests(x, i), range(c.n(240, 2500)))
    common.pmap(lambda i: wordsin(x, i), range(c.n(25, 200)))


if __name__ == "__main__":
    common.main("C09", body)
