#!/usr/bin/env python3
"""C08: forest algorithms against enumeration of the derivations."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, forest


def tstr(tr):
    return " ||| ".join(" ".join(x) for x in tr)


def plan(rng, thorough):
    """one script: forests and operations on them, with what is expected of each answer"""
    kind = rng.choice(sorted(forest.SCORES))
    shape = rng.choice(["tiny", "small", "small", "small", "deep", "bushy"] + (["large"] if rng.random() < 0.2 else []))
    n, me, mt = {"tiny": (rng.randint(1, 3), 2, 2), "small": (rng.randint(3, 7), 3, 2), "deep": (rng.randint(8, 25), 2, 2),
                 "bushy": (rng.randint(3, 6), 8, 3), "large": (rng.randint(60, 300), 4, 2)}[shape]
    factors = rng.choice([1, 1, 1, 2, 3])
    words = rng.choice([("a", "b", "c"), ("a",), tuple("abcdefghijk")] if shape in ("tiny", "small", "bushy") else [tuple("abcdefghijklmnopqrstuvwxyz")])
    F = forest.gen(rng, n, me, mt, kind, factors, words=words, complete=shape in ("large", "deep"))
    while F.max_size() > 400:
        n = n * 3 // 4
        F = forest.gen(rng, n, me, mt, kind, factors, words=words, complete=shape in ("large", "deep"))
    H = forest.gen(rng, rng.randint(1, 5), 2, 2, kind, factors)
    return kind, shape, factors, F, H


def same_graph(c, key, F, d, off_n=0, off_e=0, scores=None, what="", nodes=True):
    for i, (h, tails, sc, ft, trg) in enumerate(F.edges):
        e = d["edges"][i + off_e]
        exp = scores[i] if scores else sc
        c.expect(e["id"] == i + off_e and e["head"] == h + off_n and e["tails"] == [t + off_n for t in tails],
                 key + ":structure", "%s: edge %d is %s, expected head %d tails %s" % (what, i, e, h + off_n, tails), d)
        c.expect(abs(e["score"] - exp) <= 1e-9 * max(1, abs(exp)), key + ":score", "%s: edge %d has score %r, expected %r" % (what, i, e["score"], exp), d)
        c.expect(forest.feq(ft, e["feats"], 1e-9), key + ":features", "%s: edge %d has features %s, expected %s" % (what, i, e["feats"], ft), d)
        c.expect(e["trg"] == " ||| ".join(" ".join("x%d" % w if isinstance(w, int) else w for w in f) for f in trg), key + ":yield", "%s: edge %d has target %r" % (what, i, e["trg"]), d)
        c.expect(e["links"] == "111", key + ":links", "%s: edge %d points outside its graph (%s)" % (what, i, e["links"]), d)
    for v in range(len(F.nodes)):
        x = d["nodes"][v + off_n]
        c.expect(x["id"] == v + off_n and x["sym"] == F.nodes[v][0] and x["edges"] == [e + off_e for e in F.by[v]],
                 key + ":node", "%s: node %d is %s" % (what, v, x), d)


def check_nbest(c, key, F, lst, k, uniq, factors, scores, data):
    nd = F.count()[0]
    mag = sum(abs(s) for s in scores) + 1.0
    tol = 1e-9 * mag
    seen, strs = set(), set()
    prev = None
    for s, path, ft, tr, tr2, ft2 in lst:
        r = F.check_path(path, factors)
        if not c.expect(r is not None, key + ":derivation", "path %s is not a derivation" % path, data):
            return
        tot = math.fsum(scores[e] for e in path)
        c.expect(abs(tot - s) <= tol, key + ":score", "path %s has score %r, its edges sum to %r" % (path, s, tot), data)
        c.expect(forest.feq(r[1], ft) and forest.feq(r[1], ft2), key + ":features", "path %s has features %s, its edges %s" % (path, ft, r[1]), data)
        c.expect(tr == tstr(r[2]) and tr2 == tr, key + ":yield", "path %s yields %r / %r, expected %r" % (path, tr, tr2, tstr(r[2])), data)
        c.expect(tuple(path) not in seen, key + ":distinct", "path %s twice" % path, data)
        seen.add(tuple(path))
        c.expect(prev is None or s <= prev + tol, key + ":order", "score %r after %r" % (s, prev), data)
        prev = s
        if uniq:
            c.expect(tr not in strs, key + ":unique", "translation %r twice in a unique list" % tr, data)
            strs.add(tr)
    if not uniq:
        top = F.topk(k, scores)[0]
        c.expect(len(lst) == min(k, nd), key + ":count", "%d paths for k=%d with %d derivations" % (len(lst), k, nd), data)
        for (s, path, _, _, _, _), t in zip(lst, top):
            if not c.expect(abs(s - t) <= tol, key + ":kbest", "rank score %r, enumeration gives %r" % (s, t), data):
                break
    else:
        save = [e for e in F.edges]
        F.edges = [(h, tl, scores[i], ft, tr) for i, (h, tl, sc, ft, tr) in enumerate(F.edges)]
        bs = F.best_strings(factors, 1000)
        F.edges = save
        if bs is not None:
            top = sorted(bs[0].values(), reverse=True)
            c.expect(len(lst) == min(k, len(top)), key + ":count", "%d paths for k=%d with %d distinct translations" % (len(lst), k, len(top)), data)
            for (s, path, _, _, _, _), t in zip(lst, top):
                if not c.expect(abs(s - t) <= tol, key + ":kbest", "rank score %r among unique translations, enumeration gives %r" % (s, t), data):
                    break
            return len(bs[0])
    return nd


def body(c):
    exe = common.build("asan", drivers=["forestops"])["forestops"]
    c.rule = ("n-best paths are derivations with the sum of their edges' scores, features and yields, and their scores are the k best that exact "
              "enumeration finds; Viterbi scores are maxima; normalised edge scores are log expected edge counts; rescoring, copying and appending "
              "change only what they say. non-trivial: forests with at least 2 derivations of which the list shows a strict order or a tie")
    c.assumptions = ["forests are acyclic and every node has an edge, as in rule forests", "comparisons allow 1e-9 of the score mass for rounding"]
    R = c.sub("forests")
    total = c.n(900, 9000)
    per = 15
    batches = []
    for b in range(0, total, per):
        batches.append([plan(R, c.thorough) for _ in range(per)])
    seeds = [R.randrange(1 << 60) for _ in batches]

    def one(ix):
        rng = common.random.Random(seeds[ix])
        script, todo = [], []
        for kind, shape, factors, F, H in batches[ix]:
            k = rng.choice([1, 2, 3, 5, 10, 30, 100]) if shape != "large" else rng.choice([1, 5, 30])
            w = {f: rng.choice([0.0, 1.0, -1.0, rng.uniform(-2, 2)]) for f in ["f1", "f2", "lm", "w_é", "x", "zz"] if rng.random() < 0.8}
            s = ["fact\t%d" % factors] + F.script(0) + H.script(1)
            # finding a unique list goes through all derivations of a string, so ask only forests with few
            ku = k if F.count()[0] < 1000 else 0
            s += ["nbest\t0\t%d\t0" % k, "nbest\t0\t%d\t1" % ku, "reset\t0", "vit\t0"]
            s += ["copy\t0\t2", "eq\t0\t2", "inout\t2", "dump\t2", "dump\t0"]
            s += ["copy\t0\t3", "score\t3\t%s" % " ".join("%s=%r" % x for x in w.items()), "dump\t3", "reset\t3", "nbest\t3\t%d\t0" % k, "nbest\t3\t%d\t1" % ku, "dump\t0"]
            s += ["copy\t0\t4", "append\t4\t1", "dump\t4", "dump\t0", "dump\t1", "reset\t4", "nbest\t4\t%d\t0" % k]
            s += ["eq\t0\t4"]
            script += s
            todo.append((kind, shape, factors, F, H, k, ku, w))
        # every graph is copied from one that lives on: release the original first once in a while
        r = common.run([exe], "\n".join(script) + "\n", timeout=200)
        return r, todo, script

    for r, todo, script in common.pmap(one, range(len(batches))):
        if not c.expect(not r.crashed and not r.timeout and r.rc == 0, "crash:" + ">".join(r.frames(2)), "the driver ended with " + r.why(), "\n".join(script)[:20000]):
            continue
        rd = forest.Reader(r.out)
        try:
            for kind, shape, factors, F, H, k, ku, w in todo:
                data = {"forest": "\n".join(F.script(0)), "k": k, "factors": factors, "weights": w}
                sc = [e[2] for e in F.edges]
                rd.line()
                lst = rd.nbest()
                nd = check_nbest(c, "nbest", F, lst, k, False, factors, sc, data)
                nu = check_nbest(c, "uniq", F, rd.nbest(), ku, True, factors, sc, data)
                rd.line()
                vit = rd.line().split("\t")[1:]
                top = F.topk(1)
                mag = sum(abs(x) for x in sc) + 1
                c.expect(len(vit) == len(F.nodes) and all(v != "X" and abs(float(v) - top[i][0]) <= 1e-9 * mag for i, v in enumerate(vit)), "viterbi",
                         "one-best scores %s, enumeration gives %s" % (vit[:20], [top[i][0] for i in range(min(20, len(F.nodes)))]), data)
                rd.line()
                c.expect(rd.eq(), "equal", "a copy is not equal to its original", data)
                rd.line()
                d = rd.dump()
                post = F.inside_outside()
                for i, p in enumerate(post):
                    g = d["edges"][i]["score"]
                    if p is None:
                        c.expect(g <= -1e300, "posterior:unreachable", "edge %d no derivation uses has log posterior %r" % (i, g), data)
                    elif p > -690:
                        c.expect(abs(g - p) <= 1e-8 * max(1.0, mag / 1e3), "posterior", "edge %d has log posterior %r, enumeration gives %r" % (i, g, p), data)
                    else:
                        c.expect(abs(g - p) <= 1e-6 * max(1.0, mag), "posterior:tiny", "edge %d has log posterior %r, enumeration gives %r" % (i, g, p), data)
                same_graph(c, "original", F, rd.dump(), what="original after normalising a copy")
                rd.line()
                rd.line()
                d = rd.dump()
                ws = [sum(w.get(f, 0.0) * v for f, v in e[3].items()) for e in F.edges]
                same_graph(c, "rescore", F, d, scores=ws, what="after rescoring")
                rd.line()
                check_nbest(c, "rescore", F, rd.nbest(), k, False, factors, ws, data)
                check_nbest(c, "rescore-uniq", F, rd.nbest(), ku, True, factors, ws, data)
                same_graph(c, "original", F, rd.dump(), what="original after rescoring a copy")
                rd.line()
                a = rd.line()
                c.expect(a == "A %d" % len(F.nodes), "append:root", "append returned %s for %d nodes" % (a, len(F.nodes)), data)
                d = rd.dump()
                if c.expect(len(d["nodes"]) == len(F.nodes) + len(H.nodes) and len(d["edges"]) == len(F.edges) + len(H.edges), "append:size", "sizes after append", data):
                    same_graph(c, "append", F, d, what="first part after append")
                    same_graph(c, "append", H, d, len(F.nodes), len(F.edges), what="appended part")
                same_graph(c, "original", F, rd.dump(), what="original after appending to a copy")
                same_graph(c, "original", H, rd.dump(), what="appended graph itself")
                rd.line()
                check_nbest(c, "append", F, rd.nbest(), k, False, factors, sc, data)
                c.expect(not rd.eq(), "equal:not", "graphs of different sizes compare equal", data)
                ties = any(abs(a[0] - b[0]) < 1e-12 for a, b in zip(lst, lst[1:]))
                c.case(("f", kind, shape, factors, k, len(F.nodes), len(F.edges), nd), nd >= 2, {"shape": shape, "scores": kind, "derivations": nd, "distinct": nu, "k": k})
                c.count("paths checked against enumeration", 4 * len(lst))
                c.count("edge posteriors compared", len(post))
                c.count("lists with ties", int(ties))
                c.count("lists that exhaust the forest", int(len(lst) < k))
                c.count("forests where uniqueness removes derivations", int(nu is not None and nu < nd))
        except (EOFError, ValueError, IndexError) as e:
            c.violation("protocol", "the driver's answers do not follow the script: %s" % e, "\n".join(script)[:20000])


if __name__ == "__main__":
    common.main("C08", body)
