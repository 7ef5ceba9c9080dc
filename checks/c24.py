#!/usr/bin/env python3
"""C24: the training scripts keep the probability model consistent."""
import collections, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common
from common import close

REPO = os.environ.get("VF_REPO", "/repo")
ENV = dict(PERL_HASH_SEED="0", LC_ALL="C.UTF-8")


def script(name):
    return os.path.join(REPO, "script", "train", name)


def perl(name, args, inp="", timeout=120):
    return common.run(["perl", script(name)] + args, inp, timeout=timeout)


def sh(cmd, inp="", timeout=240):
    return common.run(["bash", "-c", "set -o pipefail; " + cmd], inp, timeout=timeout)


VOC = [["a", "b", "c"], ["the", "dog", "犬", "été", "3%", "%d", "x0", "(", "a-b", "0-1", "\"", "||", "@", "$1", "\\n", "=", "k=v", "{1}"], ["w%d" % i for i in range(30)]]


# ---------------------------------------------------------------- symmetrization
def grow(al, m, n, bl, diag, final, both):
    """al[j] = i (one link per target word j), bl[i] = j; the grow heuristic over positions counted from 1"""
    nb = [(-1, 0), (0, -1), (1, 0), (0, 1)] + ([(-1, -1), (-1, 1), (1, -1), (1, 1)] if diag else [])
    A, B = {(i, j) for j, i in al.items()}, {(i, j) for i, j in bl.items()}
    cur = [(i, j) for i, j in sorted(A & B, key=lambda p: (p[1], p[0]))]
    rows, cols = {i for i, _ in cur}, {j for _, j in cur}
    U = A | B
    new = True
    while new:
        new = False
        for i, j in cur:          # also goes over what is added on the way
            for di, dj in nb:
                p = (i + di, j + dj)
                if p in U and not (p[0] in rows and p[1] in cols):
                    cur.append(p)
                    rows.add(p[0])
                    cols.add(p[1])
                    new = True
    if final:
        for side in (A - B, B - A):
            for p in sorted(side):
                if p in cur:
                    continue
                ri, cj = p[0] in rows, p[1] in cols
                if (both and not ri and not cj) or (not both and not (ri and cj)):
                    cur.append(p)
                    rows.add(p[0])
                    cols.add(p[1])
    return set(cur)


def giza(words, links):
    """the third line of an A3 entry: each word (and NULL) with the positions of the other sentence linked to it"""
    inv = collections.defaultdict(list)
    for p, w in links.items():
        inv[w].append(p)
    return " ".join("%s ({ %s})" % (w, "".join("%d " % p for p in sorted(inv[k]))) for k, w in enumerate(["NULL"] + words)) + " "


def symmetrize(c, i):
    r = c.sub("sym%d" % i)
    S = []
    for _ in range(12):
        m, n = r.choice([1, 1, 2, 3, 5, 8, 12]), r.choice([1, 1, 2, 3, 5, 8, 12])
        dens = r.choice([0.2, 0.6, 0.9, 1.0])
        near = r.random() < 0.7
        pick = lambda x, M, N: max(1, min(M, round(x * M / N) + r.choice([-2, -1, 0, 0, 0, 1, 2]))) if near else r.randint(1, M)
        # al: for each target position its source position; bl: the other way round
        al = {j: pick(j, m, n) for j in range(1, n + 1) if r.random() < dens}
        bl = {k: pick(k, n, m) for k in range(1, m + 1) if r.random() < dens}
        S.append((m, n, al, bl))
    f, e = [], []
    v = r.choice(VOC)
    for k, (m, n, al, bl) in enumerate(S):
        sw, tw = [r.choice(v) for _ in range(m)], [r.choice(v) for _ in range(n)]
        f += ["# Sentence pair (%d) source length %d target length %d alignment score : 1e-5" % (k + 1, m, n), " ".join(tw), giza(sw, {**al, **{j: 0 for j in range(1, n + 1) if j not in al}})]
        e += ["# Sentence pair (%d) source length %d target length %d alignment score : 1e-5" % (k + 1, n, m), " ".join(sw), giza(tw, {**bl, **{j: 0 for j in range(1, m + 1) if j not in bl}})]
    ff, ef = c.write("fe%d" % i, "".join(x + "\n" for x in f)), c.write("ef%d" % i, "".join(x + "\n" for x in e))
    ways = [("grow", d, fi, a) for d in (True, False) for fi in (True, False) for a in (True, False)] + [("intersect", 0, 0, 0), ("union", 0, 0, 0)]
    for sym, d, fi, a in r.sample(ways, c.n(4, 10)) + [("default", True, True, True)]:
        b = lambda x: "true" if x else "false"
        args = [] if sym == "default" else ["--sym=" + sym] + (["--diag=" + b(d), "--final=" + b(fi), "--and=" + b(a)] if sym == "grow" else [])
        p = perl("symmetrize.pl", args + [ff, ef])
        data = {"fe": "\n".join(f), "ef": "\n".join(e), "args": args, "out": p.out}
        O = p.out.split("\n")[:-1]
        if not c.expect(p.rc == 0 and len(O) == len(S), "sym-run", "symmetrize.pl %s ended with %s and %d lines for %d" % (args, p.why(), len(O), len(S)), data):
            continue
        for (m, n, al, bl), o in zip(S, O):
            L = [tuple(int(x) + 1 for x in t.split("-")) for t in o.split()]
            got = set(L)
            A, B = {(x, j) for j, x in al.items()}, {(x, j) for x, j in bl.items()}
            c.expect(len(L) == len(got), "sym-dup", "%s has links twice" % o, data)
            c.expect(A & B <= got, "sym-inter", "%s lacks %s of the intersection" % (o, sorted(A & B - got)), data)
            c.expect(got <= A | B, "sym-union", "%s has %s, which neither side has" % (o, sorted(got - (A | B))), data)
            want = A & B if sym == "intersect" else A | B if sym == "union" else grow(al, m, n, bl, d, fi, a)
            c.expect(got == want, "sym-%s" % sym, "%s of %s and %s is %s, expected %s" % (args, sorted(A), sorted(B), sorted(got), sorted(want)), data)
            c.count("alignments symmetrized")
            c.count("links kept", len(got))
    c.case(("sym", i), True, {"a": S[0]})


# ---------------------------------------------------------------- lexical probabilities
def sent(r, v, lo=1, hi=9):
    return [r.choice(v) for _ in range(r.randint(lo, hi))]


def links(r, m, n):
    d = r.choice([0, 0.3, 1, 1.5])
    return sorted({(r.randrange(m), r.randrange(n)) for _ in range(int(d * max(m, n)))}) if m and n else []


def lexcount(C):
    fc, ec, fe = collections.Counter(), collections.Counter(), collections.Counter()
    for f, e, a in C:
        fc["NULL"] += 1
        ec["NULL"] += 1
        for j, k in a:
            fe[f[j], e[k]] += 1
            fc[f[j]] += 1
            ec[e[k]] += 1
        for k in set(range(len(e))) - {k for _, k in a}:
            fe["NULL", e[k]] += 1
            fc["NULL"] += 1
        for j in set(range(len(f))) - {j for j, _ in a}:
            fe[f[j], "NULL"] += 1
            ec["NULL"] += 1
    return ({(f, e): v / ec[e] for (f, e), v in fe.items() if f != "NULL"}, {(e, f): v / fc[f] for (f, e), v in fe.items() if e != "NULL"})


def readlex(t):
    return {tuple(l.split(" ")[:2]): float(l.split(" ")[2]) for l in t.split("\n")[:-1]}


def lexical(c, i):
    r = c.sub("lex%d" % i)
    v, w = r.choice(VOC), r.choice(VOC)
    C = []
    for _ in range(r.choice([1, 3, 20])):
        f, e = sent(r, v), sent(r, w)
        C.append((f, e, links(r, len(f), len(e))))
    sp = lambda ws: r.choice(["", "", " "]) + r.choice([" ", " ", "  "]).join(ws) + r.choice(["", "", " "])
    A = [c.write("lf%d" % i, "".join(sp(f) + "\n" for f, e, a in C)), c.write("le%d" % i, "".join(sp(e) + "\n" for f, e, a in C)),
         c.write("la%d" % i, "".join(sp(["%d-%d" % x for x in a]) + "\n" for f, e, a in C)), c.path("fge%d" % i), c.path("egf%d" % i)]
    p = perl("align2lex.pl", A)
    data = {"corpus": C, "err": p.err[-500:]}
    if not c.expect(p.rc == 0, "lex-run", "align2lex.pl ended with " + p.why(), data):
        return
    for which, path, want in zip(("f|e", "e|f"), A[3:], lexcount(C)):
        t = open(path, encoding="utf8").read()
        got = readlex(t)
        data[which] = t
        c.expect(len(got) == t.count("\n"), "lex-dup", "%s has a pair twice" % which, data)
        c.expect(set(got) == set(want), "lex-pairs:" + which, "%s lists %s too many and lacks %s" % (which, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]), data)
        for k in set(got) & set(want):
            c.expect(close(got[k], want[k], 1e-9), "lex-prob:" + which, "p(%s|%s) is %r, the relative frequency is %r" % (k[0], k[1], got[k], want[k]), data)
        tot = collections.Counter()
        for (x, y), q in got.items():
            tot[y] += q
        for y, q in tot.items():
            c.expect(close(q, 1, 1e-9) if y != "NULL" else q <= 1 + 1e-9, "lex-sum:" + which, "the probabilities given %s sum to %r" % (y, q), data)
        c.count("lexical probabilities", len(got))
    # a bad link is diagnosed
    if r.random() < 0.2:
        k = r.randrange(len(C))
        bad = [list(x) for x in C]
        bad[k][2] = bad[k][2] + [(len(C[k][0]), 0)]
        c.write("la%d" % i, "".join(" ".join("%d-%d" % x for x in a) + "\n" for f, e, a in bad))
        q = perl("align2lex.pl", A)
        c.expect(q.rc != 0 and "Bad alignment" in q.err, "lex-bad", "a link outside of the sentence passed with " + q.why(), dict(data, bad=bad[k]))
        c.count("bad links refused")
    c.case(("lex", i), True, {"corpus": C[:2]})


# ---------------------------------------------------------------- rule tables
TREEL = ["S", "NP", "VP", "X", "NN", "%", "a|b"]


def side(r, v, nts, tree, labels=TREEL):
    """tokens of one side holding the nonterminals nts (index, label), and its words"""
    ws = sent(r, v, 0 if nts else 1, 4 if r.random() < 0.95 else 14)
    items = [("w", w) for w in ws] + [("n", x) for x in nts]
    r.shuffle(items)
    words = [x for k, x in items if k == "w"]
    tok = ["\"%s\"" % x if k == "w" else "x%d:%s" % x for k, x in items]
    return tok, words


def rule(r, v, w, tree):
    nn = r.choice([0, 0, 1, 2])
    nts = [(k, r.choice(TREEL)) for k in range(nn)]
    s, sw = side(r, v, nts, tree)
    t, tw = side(r, w, [(k, r.choice(TREEL)) for k in range(nn)], False)
    if tree:
        # a tree over the tokens: random brackets
        out = s
        for _ in range(r.randint(0, 2)):
            a = r.randrange(len(out))
            b = r.randint(a + 1, min(len(out), a + 3))
            out = out[:a] + ["%s ( %s )" % (r.choice(TREEL), " ".join(out[a:b]))] + out[b:]
        src = "%s ( %s )" % (r.choice(TREEL), " ".join(out))
    else:
        src = " ".join(s) + " @ " + r.choice(TREEL)
    trg = " ".join(t) + " @ " + r.choice(TREEL)
    return src, trg, sw, tw


def table(r, c):
    v, w = [x for x in r.choice(VOC) if x not in ('"', "\"")], [x for x in r.choice(VOC) if x != '"']
    tree = r.random() < 0.5
    R = []
    for _ in range(r.choice([1, 4, 25])):
        src, trg, sw, tw = rule(r, v, w, tree)
        for _k in range(r.choice([1, 1, 2, 4])):
            R.append((src, trg, sw, tw))
            # the same source with another target, and the other way round
            _, trg, _, tw = rule(r, v, w, tree)
            if _ and r.random() < 0.3:
                src, _, sw, _ = rule(r, v, w, tree)
    frac = r.choice(["one", "one", "frac", "third"])
    E = []
    for src, trg, sw, tw in R:
        AA = [links(r, len(sw), len(tw)) for _ in range(r.choice([1, 1, 2]))]
        for _ in range(r.choice([1, 1, 1, 2, 5, 20, 21, 30])):
            n = "1" if frac == "one" else "%g" % r.choice([0.5, 0.25, 1, 0.125]) if frac == "frac" else "%g" % r.random()
            E.append((src, trg, n, tuple(r.choice(AA)), sw, tw))
    r.shuffle(E)
    return E, v, w


def m1(lex, sw, tw, al):
    """log probability of the words sw -> tw; lex[(t, s)]"""
    if not tw:
        return 0.0
    tot = 0.0
    for k, t in enumerate(tw):
        if al is None:
            p = sum(lex.get((t, s), 0) for s in sw + ["NULL"]) / (len(sw) + 1)
        else:
            L = [lex.get((t, sw[a]), 0) for a, b in al if b == k]
            p = sum(L) / len(L) if L else lex.get((t, "NULL"), 0)
        tot += math.log(p) if p else -20
    return tot


def feats(s):
    d = {}
    for x in s.split(" "):
        k, v = x.split("=") if x.count("=") == 1 else x.rsplit("=", 1)
        assert k not in d
        d[k] = v
    return d


def rules(c, i):
    r = c.sub("rules%d" % i)
    E, v, w = table(r, c)
    tree = E[0][0].endswith(" )")
    # lexical probabilities of both directions
    lex = [{}, {}]
    for L, x, y in ((lex[0], w, v), (lex[1], v, w)):
        for a in x:
            for b in y + ["NULL"]:
                if r.random() < 0.6:
                    L[a, b] = round(r.uniform(0.001, 1), r.choice([2, 5]))
    sep = r.choice([" ", "\t"])
    lf = [c.write("lex%d-%d" % (k, i), "".join("%s%s%s%s%r\n" % (a, sep, b, sep, p) for (a, b), p in L.items())) for k, L in enumerate(lex)]
    aligned = r.random() < 0.5
    cooc = r.choice([0, 0, 0, 1.5, 2])
    labels = r.choice([[], ["--src-label", "--trg-label", "--src-trg-label", "--trg-syntax"]]) if tree else []
    opts = (["--lex-type=aligned"] if aligned else []) + (["--cooc-min-freq=%s" % cooc] if cooc else [])
    ext = c.write("ext%d" % i, "".join("%s ||| %s ||| %s ||| %s\n" % (s, t, n, " ".join("%d-%d" % x for x in a)) for s, t, n, a, _, _ in E))
    fof = c.path("fof%d" % i)
    q = lambda *a: " ".join("'%s'" % x for x in a)
    st, ts, outp = c.path("st%d" % i), c.path("ts%d" % i), c.path("tm%d" % i)
    cmds = ["env LC_ALL=C sort < %s | perl %s %s --fof-file=%s --lex-prob-file=%s --cond-prefix=egf --joint | env LC_ALL=C sort > %s" % (ext, script("score-t2s.pl"), q(*(opts + labels)), fof, lf[0], st),
            "perl %s < %s | env LC_ALL=C sort | perl %s %s --lex-prob-file=%s --cond-prefix=fge | perl %s | env LC_ALL=C sort > %s" % (script("reverse-rt.pl"), ext, script("score-t2s.pl"), q(*opts), lf[1], script("reverse-rt.pl"), ts)]
    data = {"extracted": open(ext, encoding="utf8").read(), "cmds": cmds}
    for cmd in cmds:
        p = sh(cmd)
        if not c.expect(p.rc == 0, "score-run", "%s ended with %s" % (cmd, p.why()), data):
            return
    # what is to be expected
    cnt, al, W = collections.defaultdict(float), collections.defaultdict(lambda: collections.defaultdict(float)), {}
    for s, t, n, a, sw, tw in E:
        cnt[s, t] += float(n)
        al[s, t][a] += float(n)
        W[s, t] = (sw, tw)
    keep = {k: x for k, x in cnt.items() if x >= cooc}
    if cooc and any(abs(x - cooc) < 1e-6 and x != cooc for x in cnt.values()):
        return
    sc, tc = collections.defaultdict(float), collections.defaultdict(float)
    for (s, t), x in keep.items():
        sc[s] += x
        tc[t] += x

    def line_ok(cols, pre, tot, L, rev, key):
        s, t = key
        f = feats(cols[2])
        c.expect(abs(float(f[pre + "p"]) - math.log(keep[key] / tot)) < 2e-6, "score-prob:" + pre, "%s of %s is %s, expected the log of %r/%r" % (pre + "p", key, f[pre + "p"], keep[key], tot), data)
        n = [float(x) for x in cols[3].split()]
        c.expect(close(n[0], keep[key], 1e-9) and close(n[1], tot, 1e-9), "score-count:" + pre, "%s has the counts %s, expected %r and %r" % (key, n, keep[key], tot), data)
        a = tuple(tuple(map(int, x.split("-"))) for x in cols[4].split())
        best = max(al[key].values())
        if c.expect(a in al[key] and close(al[key][a], best, 1e-9), "score-align:" + pre, "%s has the alignment %s, counted %s" % (key, a, dict(al[key])), data):
            sw, tw = W[key]
            # an empty alignment counts as none
            x, y = (sw, tw) if not rev else (tw, sw)
            links_ = [(q_, p_) for p_, q_ in a] if rev else list(a)
            ok = [m1(L, x, y, links_ if (aligned and a) else None)]
            if sum(1 for z in al[key].values() if close(z, best, 1e-9)) > 1:
                # tied alignments may differ between the two passes
                ok += [m1(L, x, y, ([(q_, p_) for p_, q_ in b] if rev else list(b)) if (aligned and b) else None) for b, z in al[key].items() if close(z, best, 1e-9)]
            got = float(f.get(pre + "l", "nan"))
            c.expect(any(close(got, o, 2e-6) or abs(got - o) < 2e-6 for o in ok), "score-lex:" + pre, "%sl of %s with %s is %r, expected %r" % (pre, key, a, got, ok), data)
        return f
    T = {}
    for path, pre, tot, L, rev in ((st, "egf", lambda k: sc[k[0]], lex[0], False), (ts, "fge", lambda k: tc[k[1]], lex[1], True)):
        seen = set()
        txt = open(path, encoding="utf8").read()
        d2 = data[pre] = txt
        sums = collections.defaultdict(float)
        for l in txt.split("\n")[:-1]:
            cols = l.split(" ||| ")
            if not c.expect(len(cols) == 5, "score-cols", "line %r of the %s table" % (l, pre), data):
                return
            key = (cols[0], cols[1])
            if not c.expect(key in keep and key not in seen, "score-rules", "%s was scored, but %s" % (key, "twice" if key in seen else "was not extracted often enough (%s)" % cnt.get(key)), data):
                continue
            seen.add(key)
            f = line_ok(cols, pre, tot(key), L, rev, key)
            sums[key[1] if rev else key[0]] += math.exp(float(f[pre + "p"]))
            if not rev:
                c.expect(f.get("p") == "1" and int(f.get("w", 0)) == len(W[key][1]), "score-joint", "%s has %s, its target has %d words" % (key, f, len(W[key][1])), data)
                if labels:
                    sl, tl = cols[0].split(" ")[0], re.search(r"@ ([^ ]+)", cols[1]).group(1)
                    for n in ("sl_" + sl, "tl_" + tl, "stl_%s_%s" % (sl, tl)):
                        c.expect(f.get(n) == "1", "score-labels", "%s has no feature %s: %s" % (key, n, f), data)
                    c.count("label features", 3)
        for x, y in sums.items():
            c.expect(abs(y - 1) < 1e-5 * (1 + len(seen)), "score-sum:" + pre, "the probabilities given %s sum to %r" % (x, y), data)
        c.expect(seen == set(keep), "score-lost:" + pre, "%s were extracted, but not scored" % sorted(set(keep) - seen)[:3], data)
        c.count("rules scored", len(seen))
    # only sources that are frequent enough, and features with a prefix
    least = r.choice([1, 2, 3, 5])
    cmd = "env LC_ALL=C sort < %s | perl %s %s --src-min-freq=%d --prefix=p_ --cond-prefix=egf" % (ext, script("score-t2s.pl"), q(*opts), least)
    p = sh(cmd)
    if c.expect(p.rc == 0, "score-run", "%s ended with %s" % (cmd, p.why()), data) and not any(abs(x - least) < 1e-6 and x != least for x in sc.values()):
        res = {tuple(l.split(" ||| ")[:2]): feats(l.split(" ||| ")[2]) for l in p.out.split("\n")[:-1]}
        d3 = dict(data, cmd=cmd, out=p.out)
        want = {k for k in keep if sc[k[0]] >= least}
        c.expect(set(res) == want, "score-minfreq", "with --src-min-freq=%d, %s are missing and %s too many" % (least, sorted(want - set(res))[:3], sorted(set(res) - want)[:3]), d3)
        for k, f in res.items():
            c.expect(set(f) == {"p_egfp"} and (k not in want or abs(float(f["p_egfp"]) - math.log(keep[k] / sc[k[0]])) < 2e-6), "score-prefix", "%s has the features %s" % (k, f), d3)
        c.count("rules of rare sources left out", len(keep) - len(res))
    # frequencies of frequencies
    want = [0] * 21
    for x in keep.values():
        if int(x + 1e-9) <= 20:
            want[int(x + 1e-9)] += 1
    got = [int(x or 0) for x in open(fof).read().split("\n")[:-1]]
    got += [0] * (21 - len(got))
    if not any(abs(x - round(x)) < 1e-6 and x != round(x) for x in keep.values()):
        c.expect(got == want, "score-fof", "the frequencies of frequencies are %s, expected %s" % (got, want), data)
    # the combined table
    top = r.choice([0, 0, 1, 2, 3])
    kn = r.random() < 0.4 and len(open(fof).read().split("\n")) - 1 > 4 and all(want[1:4])
    args = (["--fof-file=" + fof] if r.random() < 0.5 or kn else []) + (["--smooth=kn"] if kn else []) + (["--top-n=%d" % top] if top else [])
    p = perl("combine-rt.pl", args + [st, ts])
    data["combined"] = p.out
    data["args"] = args
    if not c.expect(p.rc == 0, "combine-run", "combine-rt.pl %s ended with %s" % (args, p.why()), data):
        return
    A = {tuple(l.split(" ||| ")[:2]): l.split(" ||| ") for l in open(st, encoding="utf8").read().split("\n")[:-1]}
    B = {tuple(l.split(" ||| ")[:2]): l.split(" ||| ") for l in open(ts, encoding="utf8").read().split("\n")[:-1]}
    got, order = {}, []
    for l in p.out.split("\n")[:-1]:
        cols = l.split(" ||| ")
        if c.expect(len(cols) == 5 and tuple(cols[:2]) in A and tuple(cols[:2]) not in got, "combine-rules", "line %r of the combined table" % l, data):
            got[tuple(cols[:2])] = cols
            order.append(tuple(cols[:2]))
    D = [0, 0, 0, 0]
    if kn:
        Y = want[1] / (want[1] + 2 * want[2])
        D = [0] + [max(0, k - (k + 1) * Y * want[k + 1] / want[k]) for k in (1, 2, 3)]

    def disc(x):
        d = int(x)
        return x - (D[3] if d >= 3 else D[d] * (1 - (x - d)) + D[d + 1] * (x - d))
    for k, cols in got.items():
        f, fa, fb = feats(cols[2]), feats(A[k][2]), feats(B[k][2])
        exp = dict(fb, **fa)
        if kn:
            x = disc(keep[k])
            for n, tot in (("lfreq", 1), ("fgep", tc[k[1]]), ("egfp", sc[k[0]])):
                exp[n] = math.log(x / tot) if x > 1e-9 else -99
        c.expect(set(f) == set(exp) and all(close(float(f[n]), float(exp[n]), 1e-6) or abs(float(f[n]) - float(exp[n])) < 2e-6 for n in f), "combine-feats", "%s has the features %s, expected %s" % (k, f, exp), data)
        n = [float(x) for x in cols[3].split()]
        c.expect(len(n) == 3 and all(close(a, b, 1e-9) for a, b in zip(n, (keep[k], sc[k[0]], tc[k[1]]))), "combine-counts", "%s has the counts %s, expected %r, %r and %r" % (k, n, keep[k], sc[k[0]], tc[k[1]]), data)
        c.expect(cols[4] in (A[k][4], B[k][4]), "combine-align", "%s has the alignment %s, the tables have %s and %s" % (k, cols[4], A[k][4], B[k][4]), data)
        c.count("rules combined")
    if not top:
        c.expect(set(got) == set(keep), "combine-lost", "%s were lost" % sorted(set(keep) - set(got))[:3], data)
    else:
        by = collections.defaultdict(list)
        for k in keep:
            by[re.sub(r" @ [^ ]+$", "", k[0])].append(k)
        # groups whose lines are not next to each other are cut at the seams
        keys = [re.sub(r" @ [^ ]+$", "", l.split(" ||| ")[0]) for l in open(st, encoding="utf8").read().split("\n")[:-1]]
        runs = collections.Counter(a for a, b in zip(keys, [None] + keys) if a != b)
        for s, ks in by.items():
            if runs[s] != 1:
                continue
            g = [k for k in ks if k in got]
            c.expect(len(g) == min(top, len(ks)), "combine-topn", "%d of %d rules of %s were kept, at most %d are wanted" % (len(g), len(ks), s, top), data)
            lo = min([disc(keep[k]) for k in g], default=0)
            c.expect(all(disc(keep[k]) <= lo + 1e-9 for k in ks if k not in got), "combine-topn-best", "of %s, rules were dropped that are more frequent than some kept" % s, data)
            c.count("rule groups cut to the most frequent")
    c.case(("rules", i), len(keep) > 3, {"extracted": [" ||| ".join(x[:3]) for x in E[:3]], "args": opts + args})


def reverse(c, i):
    r = c.sub("rev%d" % i)
    E, v, w = table(r, c)
    kind = r.choice([3, 4, 5])
    L = []
    for s, t, n, a, _, _ in E:
        al = " ".join("%d-%d" % x for x in a)
        L.append([s, t, "f=1 g=-2.5"] if kind == 3 else [s, t, n, al] if kind == 4 else [s, t, "egfp=-0.5", "1 2", al])
    text = "".join(" ||| ".join(x) + "\n" for x in L)
    p = perl("reverse-rt.pl", [], text)
    data = {"table": text, "out": p.out}
    want = "".join(" ||| ".join([x[1], x[0]] + x[2:-1] + ([" ".join("-".join(reversed(y.split("-"))) for y in x[-1].split())] if kind > 3 else [x[-1]])) + "\n" for x in L)
    c.expect(p.rc == 0 and p.out == want, "reverse", "reverse-rt.pl made %r, expected %r" % (p.out[:300], want[:300]), data)
    q = perl("reverse-rt.pl", [], p.out)
    c.expect(q.rc == 0 and q.out == text, "reverse-twice", "reversing twice made %r of %r" % (q.out[:300], text[:300]), data)
    c.count("rules reversed", len(L))
    c.case(("rev", i), True, {"table": text[:200]})


# ---------------------------------------------------------------- filtering
def segments(src):
    """the source side as words and None for nonterminals"""
    out = []
    for x in src.split(" "):
        if len(x) > 2 and x[0] == x[-1] == '"':
            out.append(x[1:-1])
        elif re.match(r"x\d+(:|$)", x):
            out.append(None)
        elif x == "@":
            break
    return out


def usable(seg, sentence):
    """can the words of seg be found in the sentence, each gap over at least one word?"""
    n = len(sentence)
    pos = set(range(n + 1))
    gap = False
    for x in seg:
        if x is None:
            lo = min(pos, default=None)
            pos = set(range(lo + 1, n + 1)) if lo is not None else set()
        else:
            pos = {p + 1 for p in pos if p < n and sentence[p] == x}
        if not pos:
            return False
    return True


def penn(r, ws):
    """a tree over the words, one line"""
    nodes = ["(%s %s)" % (r.choice(["NN", "DT", "."]), w) for w in ws]
    while len(nodes) > 1:
        a = r.randrange(len(nodes) - 1)
        b = min(len(nodes), a + r.randint(2, 3))
        nodes[a:b] = ["(%s %s)" % (r.choice(["NP", "VP"]), " ".join(nodes[a:b]))]
    return "(S %s)" % nodes[0]


def filtering(c, i):
    r = c.sub("filter%d" % i)
    v = [x for x in r.choice(VOC) if not set(x) & set("()\"[")] or ["a", "b"]
    S = [sent(r, v, 1, r.choice([3, 8, 15, 25])) for _ in range(r.choice([1, 3, 10]))]
    tree = r.random() < 0.5
    R = []
    for _ in range(r.choice([5, 30, 60])):
        if r.random() < 0.7:
            # take a span of a sentence and cut gaps into it
            s = r.choice(S)
            a = r.randrange(len(s))
            b = r.randint(a + 1, min(len(s), a + r.choice([3, 6, 14, 25])))
            seg, k = [], a
            nts = 0
            while k < b:
                if nts < 2 and r.random() < 0.25:
                    seg.append(None)
                    nts += 1
                    k += r.choice([1, 1, 2, 3, 9])
                else:
                    seg.append(s[k])
                    k += 1
            if r.random() < 0.3:
                q = r.randrange(len(seg))
                seg[q] = r.choice(v) if seg[q] is not None else seg[q]
        else:
            seg = [r.choice(v + [None]) for _ in range(r.randint(1, 4))]
        n, tok = 0, []
        for x in seg:
            if x is None:
                tok.append("x%d:%s" % (n, r.choice(["NP", "X"])))
                n += 1
            else:
                tok.append("\"%s\"" % x)
        if tree:
            src = "S ( " + " ".join(t if t[0] == "x" or r.random() < 0.4 else "NN ( %s )" % t for t in tok) + " )"
        else:
            src = " ".join(tok) + " @ X"
        _, trg, _, _ = rule(r, v, v, False)
        line = [src, trg, "p=%g" % r.random()] + (["%g 2 3" % r.randint(1, 3), "0-0"] if r.random() < 0.7 else [])
        for _k in range(r.choice([1, 1, 2])):
            R.append((line, seg))
    text = "".join(" ||| ".join(l) + "\n" for l, _ in R)
    fmt = r.choice(["word", "penn", "egret"])
    if fmt == "word":
        st = "".join(" ".join(s) + "\n" for s in S)
    elif fmt == "penn":
        st = "".join(penn(r, s) + "\n" for s in S)
    else:
        st = "".join("sentence %d :\n%s\nS[0,%d] => NN[0,0] ||| -1\n\n" % (k + 1, " ".join(s), len(s) - 1) for k, s in enumerate(S))
    sf = c.write("fsrc%d" % i, st)
    # the Perl filter: words next to each other must be next to each other in the input
    ln, nl, ml = r.choice([None, None, 2, 4]), r.choice([None, None, 1]), r.choice([None, None, 2, 3, 5, 20])
    args = ["--src=" + sf, "--src-format=" + fmt] + (["--len=%d" % ln] if ln else []) + (["--ntlen=%d" % nl] if nl else []) + (["--max-rule-len=%d" % ml] if ml else [])

    def judge(name, args, out, rc, why, keep, data):
        if not c.expect(rc == 0, "filter-run:" + name, "%s ended with %s" % (name, why), data):
            return
        O = out.split("\n")[:-1]
        want = [" ||| ".join(l) for l, s in R if keep(s)]
        if O != want:
            lost = [l for l in want if l not in O]
            more = [l for l in O if l not in want]
            c.violation("filter-lost:" + name if lost else "filter-kept:" + name if more else "filter-order:" + name,
                        "%s: lost %s, kept %s" % (name, lost[:2], more[:2]), data)
        c.count("rules filtered by " + name, len(R))
        c.count("rules kept by " + name, len(O))

    def keep_rt(seg):
        if ln and sum(x is not None for x in seg) > ln or nl and sum(x is None for x in seg) > nl:
            return False
        run = []
        for x in seg + [None]:
            if x is None:
                if run and not any(s[k:k + len(run)] == run for s in S for k in range(len(s))):
                    return False
                if run and ml and len(run) > ml:
                    return False
                run = []
            else:
                run.append(x)
        return True
    p = perl("filter-rt.pl", args, text)
    judge("filter-rt.pl", args, p.out, p.rc, p.why(), keep_rt, {"table": text, "src": st, "args": args, "out": p.out})
    args = ["--format", fmt] if r.random() < 0.7 or fmt == "word" else []
    q = common.run(["python3", script("filter-rule-table.py")] + args + [sf], text, timeout=120)
    judge("filter-rule-table.py", args, q.out, q.rc, q.why(), lambda seg: all(x is None for x in seg) or any(usable(seg, s) for s in S), {"table": text, "src": st, "args": args, "out": q.out, "err": q.err[-400:]})
    c.case(("filter", i), len(R) > 5, {"table": text[:200], "src": st[:200]})


def model(c, i):
    r = c.sub("model%d" % i)
    d = c.path("m%d" % i)
    os.makedirs(d)
    os.makedirs(d + "/x")
    os.makedirs(d + "/y")
    names = r.sample([d + "/x/tm", d + "/y/tm", d + "/tm2.gz", d + "/glue", d + "/y/other.gz"], r.choice([1, 1, 2, 3, 5]))
    tabs = {}
    import gzip
    for n in names:
        t = "".join("\"%s\" @ X ||| \"y\" @ X ||| p=1\n" % r.choice("abcde") for _ in range(r.randint(0, 8)))
        tabs[n] = t
        (gzip.open(n, "wt") if n.endswith(".gz") else open(n, "w")).write(t)
    sec = [["[lm_file]", d + "/lm"], ["[tm_file]"] + names, ["[weight_vals]", "p=0.5", "lm=1"], ["[tm_storage]", "hash"]]
    r.shuffle(sec)
    conf = "\n\n".join("\n".join(s) for s in sec) + r.choice(["\n", "\n\n"])
    open(d + "/in.ini", "w").write(conf)
    kp = r.choice("abcde")
    p = perl("filter-model.pl", [d + "/in.ini", d + "/out.ini", d + "/out", "grep -v '\"%s\"' | cat" % kp])
    data = {"conf": conf, "tables": tabs, "err": p.err[-600:]}
    if not c.expect(p.rc == 0, "model-run", "filter-model.pl ended with " + p.why(), data):
        return
    out = open(d + "/out.ini").read()
    data["out"] = out
    parse = lambda t: {b.split("\n")[0]: b.split("\n")[1:] for b in re.split(r"\n\n+", t.strip())}
    a, b = parse(conf), parse(out)
    c.expect(set(a) == set(b) and all(a[k] == b[k] for k in a if k != "[tm_file]"), "model-conf", "the configuration became %s, was %s" % (b, a), data)
    if c.expect(len(b.get("[tm_file]", [])) == len(names), "model-files", "%s for the tables %s" % (b.get("[tm_file]"), names), data):
        for n, o in zip(names, b["[tm_file]"]):
            want = "".join(l + "\n" for l in tabs[n].split("\n")[:-1] if '"%s"' % kp not in l)
            try:
                got = (gzip.open(o, "rt") if o.endswith(".gz") else open(o)).read()
            except OSError as e:
                got = repr(e)
            c.expect(got == want and o.startswith(d + "/out/"), "model-table", "%s was filtered to %s, which holds %r, expected %r" % (n, o, got, want), data)
            c.count("models filtered")
    c.case(("model", i), len(names) > 1, {"conf": conf})


def clean(c, i):
    r = c.sub("clean%d" % i)
    n = r.choice([1, 2, 3])
    N = r.choice([0, 1, 10, 40])
    v = r.choice(VOC)
    F = [[" ".join(sent(r, v, 0, r.choice([3, 12]))) for _ in range(N)] for _ in range(n)]
    lo, hi = r.choice([1, 1, 2, 0]), r.choice([3, 5, 60])
    old = [c.write("cl%d-%d" % (i, k), "".join(l + "\n" for l in f)) for k, f in enumerate(F)]
    new = [c.path("cn%d-%d" % (i, k)) for k in range(n)]
    ids = c.path("ci%d" % i)
    p = perl("clean-corpus.pl", ["--max_len=%d" % hi, "--min_len=%d" % lo, "--ids=" + ids] + old + new)
    data = {"files": F, "min": lo, "max": hi}
    if not c.expect(p.rc == 0, "clean-run", "clean-corpus.pl ended with " + p.why(), data):
        return
    ok = [k for k in range(N) if all(lo <= len(f[k].split(" ") if f[k] else []) <= hi for f in F)]
    for f, o in zip(F, new):
        got = open(o, encoding="utf8").read()
        c.expect(got == "".join(f[k] + "\n" for k in ok), "clean-lines", "%r was cleaned to %r, expected the lines %s" % (f, got, ok), data)
    c.expect(open(ids).read() == "".join("%d\n" % (k + 1) for k in ok), "clean-ids", "the ids are %r, expected %s" % (open(ids).read(), ok), data)
    c.count("sentence groups cleaned", N)
    c.case(("clean", i), N > 1, {"files": [f[:3] for f in F]})


def reduce_(c, i):
    r = c.sub("red%d" % i)
    names = r.sample(["p", "egfp", "fge=l", "w", "lfreq", "sl_NP", "日"], 4)
    Wt = {n: round(r.uniform(-2, 2), 3) for n in names}
    ini = c.write("red%d.ini" % i, "[tm_file]\nx\n\n[weight_vals]\n" + "".join("%s=%r\n" % (n, x) for n, x in Wt.items()) + r.choice(["", "\n[foo]\np=9\n"]))
    L = []
    for _ in range(20):
        f = {n: round(r.uniform(-5, 5), 2) for n in r.sample(names, r.randint(1, 4))}
        L.append(("\"%s\" @ X" % r.choice("abc"), "\"y\" @ X", f))
    text = "".join("%s ||| %s ||| %s%s\n" % (s, t, " ".join("%s=%r" % x for x in f.items()), r.choice(["", " ||| 1 2 3 ||| 0-0"])) for s, t, f in L)
    p = perl("reduce-features.pl", [ini], text)
    data = {"ini": open(ini, encoding="utf8").read(), "table": text, "out": p.out}
    O = p.out.split("\n")[:-1]
    if c.expect(p.rc == 0 and len(O) == len(L), "reduce-run", "reduce-features.pl ended with %s" % p.why(), data):
        for (s, t, f), o in zip(L, O):
            cols = o.split(" ||| ")
            c.expect(cols[:2] == [s, t] and abs(float(cols[2].split("=")[1]) - sum(Wt[n] * x for n, x in f.items())) < 2e-6, "reduce-sum", "%s %s %s became %s" % (s, t, f, o), data)
            c.count("rules reduced")
    c.case(("red", i), True, {"table": text[:200]})


def body(c):
    c.rule = ("random alignments, corpora and extracted rules through the real Perl and Python scripts, as train-travatar.pl chains them; every output line is judged by monitors that recount the input: set algebra and the "
              "heuristic's definition, relative frequencies, sums to one, lexical weights, counts, alignments, and which rules can be used on a text")
    c.assumptions = ["ties between equally frequent alignments of a rule, and between equally frequent rules cut by --top-n, may be resolved either way", "words named NULL, and words holding the column separator, are not generated",
                     "train-travatar.pl and mert-travatar.pl themselves need GIZA++ or pialign, and are followed by hand"]
    common.pmap(lambda i: symmetrize(c, i), range(c.n(100, 600)))
    common.pmap(lambda i: lexical(c, i), range(c.n(150, 1200)))
    common.pmap(lambda i: rules(c, i), range(c.n(450, 4000)))
    common.pmap(lambda i: reverse(c, i), range(c.n(90, 500)))
    common.pmap(lambda i: filtering(c, i), range(c.n(360, 3000)))
    common.pmap(lambda i: model(c, i), range(c.n(50, 400)))
    common.pmap(lambda i: clean(c, i), range(c.n(90, 500)))
    common.pmap(lambda i: reduce_(c, i), range(c.n(45, 300)))


if __name__ == "__main__":
    common.main("C24", body)
