"""Judging decoder output against enumerated derivations."""
import json
import mt
from common import close


def dkey(d):
    return (tuple(tuple(w) for w in d.trg),)


def same_feats(a, b):
    a, b = mt.nz(a), mt.nz(b)
    for k in set(a) | set(b):
        if not close(a.get(k, 0.0), b.get(k, 0.0), 2e-5, 2e-5):
            return False
    return True


def parse_trace(text, indexed):
    """{(sent, index): [(span, src, trg, feats)]}"""
    out = {}
    for line in text.split("\n"):
        if line == "":
            continue
        c = line.split(" ||| ")
        if indexed:
            k, r = (int(c[0]), int(c[1])), c[2:]
        else:
            k, r = (int(c[0]), 0), c[1:]
        if len(r) == 3:
            r.append("")
        out.setdefault(k, []).append((tuple(json.loads(r[0])), " ".join(r[1].split()), " ".join(r[2].split()), mt.parse_feats(r[3])))
    return out


def trace_eq(got, want):
    if len(got) != len(want):
        return False
    g = sorted(got, key=lambda x: (x[0], x[1], x[2], sorted(x[3].items())))
    w = sorted([(a, " ".join(b.split()), " ".join(c.split()), dict(f)) for (a, b, c, f) in want], key=lambda x: (x[0], x[1], x[2], sorted(x[3].items())))
    return all(x[:3] == y[:3] and same_feats(x[3], y[3]) for x, y in zip(g, w))


def judge_sentence(c, key, s, ds, n, uniq, want_nbest, got, one_words, tr, data, tree=False, treeok=False):
    """ds: all derivations, best first; got: n-best entries; tr: parsed traces"""
    if want_nbest:
        if uniq:
            # best derivation of each distinct translation
            best = {}
            for d in ds:
                best.setdefault(dkey(d), d)
            want = sorted(best.values(), key=lambda d: -d.score)[:n]
        else:
            want = ds[:n]
        if not c.expect(len(got) == len(want), key + "-count",
                        "n-best list of sentence %d has %d entries, %d derivations expected" % (s, len(got), len(want)), data):
            return False
        c.expect(got[0][0] == one_words, key + "-onebest", "1-best %r is not the first n-best entry %r" % (one_words, got[0][0]), data)
        for k, (g, w) in enumerate(zip(got, want)):
            if not c.expect(close(g[1], w.score, 2e-5, 2e-5), key + "-score",
                            "sentence %d entry %d has score %r, the %d-th best derivation has %r" % (s, k, g[1], k + 1, w.score), data):
                break
        # every entry is a derivation, none used twice
        pool = {}
        for d in ds:
            pool.setdefault(dkey(d), []).append(d)
        seen = set()
        for k, g in enumerate(got):
            if tree and not c.expect(g[3] is not None, key + "-tree", "no tree printed", data):
                break
            wk = (tuple(tuple(w) for w in g[0]),)
            if uniq and not c.expect(wk not in seen, key + "-dup", "duplicate translation %r under nbest_uniq" % (wk,), data):
                break
            seen.add(wk)
            t = tr.get((s, k), [])
            hit = None
            for d in pool.get(wk, []):
                if same_feats(g[2], d.feats) and trace_eq(t, d.trace):
                    hit = d
                    break
            if hit is None:
                c.violation(key + "-deriv", "sentence %d entry %d %r (trace %r) is not a derivation, or is listed too often" % (s, k, g, t), data)
                break
            pool[wk].remove(hit)
            # words that look like variables are ambiguous in the tree string
            if tree and treeok:
                c.count("trees compared")
                c.expect(any(mt.compose_tree(d).split() == g[3].split() for d in [hit]), key + "-tree",
                         "tree %r printed for the derivation %r" % (g[3], mt.compose_tree(hit)), data)
    else:
        t = tr.get((s, 0), [])
        top = [d for d in ds if close(d.score, ds[0].score, 1e-9, 1e-9)]
        ok = any([list(w) for w in d.trg] == one_words and trace_eq(t, d.trace) for d in top)
        c.expect(ok, key + "-best", "best translation %r with trace %r is not a best derivation (score %r)" % (one_words, t, ds[0].score), data)
    return True


def judge_forest(c, key, fj, sent, ds, weights, nfact, data, trim=0, nb=None):
    nodes = {}
    for nd in fj.get("nodes", []):
        nodes[nd["id"]] = mt.Node(nd.get("sym"), tuple(nd["span"]))
    tf = {}
    for e in fj.get("edges", []):
        trg = []
        for cd in e.get("trg", []):
            trg.append([(-1 - w, "") if isinstance(w, int) else w for w in cd["words"] if w != ""] if "words" in cd else [])
        h = nodes[e["head"]]
        ed = mt.TEdge(h, [nodes[t] for t in e.get("tails", [])], {k: float(v) for k, v in e.get("features", {}).items()}, trg, ())
        tf.setdefault(h, []).append(ed)
        sc = sum(weights.get(k, 0.0) * v for k, v in ed.feats.items())
        c.expect(close(float(e.get("score", 0)), sc, 5e-5, 5e-5), key + "-edgescore",
                 "forest edge %r has score %r, its features give %r" % (e, e.get("score"), sc), data)
    if trim:
        gd = sorted(-d.score for d in mt.enumerate_derivs(nodes[0], tf, weights, nfact))
        wd = sorted(-d.score for d in ds)
        c.count("trimmed forests judged")
        c.expect(len(gd) >= min(trim, len(wd)) and all(abs(a - b) < 1e-2 for a, b in list(zip(gd, wd))[:trim]), key + "-trim",
                 "the forest trimmed to the %d best does not hold their scores: %r, expected %r" % (trim, gd[:5], wd[:5]), data)
        # every edge that stays is part of one of the n best (ties at the boundary make the set ambiguous)
        if len(wd) <= trim or abs(wd[trim - 1] - wd[trim]) > 1e-6:
            top = sorted(ds, key=lambda d: -d.score)[:trim]
            used = set(id(e) for d in top for e in d.edges)
            left = sum(len(v) for v in tf.values())
            c.expect(left <= len(used), key + "-trim", "the forest trimmed to the %d best keeps %d edges, those derivations use %d" % (trim, left, len(used)), data)
        return
    got = sorted((tuple(tuple(w) for w in d.trg), round(d.score, 3)) for d in mt.enumerate_derivs(nodes[0], tf, weights, nfact))
    want = sorted((tuple(tuple(w) for w in d.trg), round(d.score, 3)) for d in ds)
    c.count("forest derivations compared", len(want))
    ok = len(got) == len(want) and all(a[0] == b[0] for a, b in zip(got, want)) and \
        all(abs(a - b) < 0.01 for a, b in zip(sorted(x[1] for x in got), sorted(x[1] for x in want)))
    c.expect(ok, key + "-forest", "printed forest has %d derivations, expected %d; differing: %r" % (len(got), len(want), [x for x in got if x not in want][:2]), data)
