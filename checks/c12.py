#!/usr/bin/env python3
"""C12: hiero-extractor's output against an extractor written from the definition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common
from common import close

SVOC = ["a", "b", "c", "d", "e", "x0", "X", "@", '"', 'q"r', "|||x", "1-2", "\u65e5", "\u00e9t\u00e9", "a"]
TVOC = ["A", "B", "C", "D", "x1:X", "Z", '"', "\\", "\u672c", "A"]


def gen_align(rng, n, m):
    mode = rng.choice(["diag", "perm", "rand", "sparse", "none", "dense", "block"])
    al = set()
    if mode == "diag":
        for i in range(n):
            if rng.random() < 0.8:
                al.add((i, min(m - 1, max(0, i * m // n + rng.choice([0, 0, 0, 1, -1])))))
    elif mode == "perm":
        p = list(range(m))
        rng.shuffle(p)
        for i in range(min(n, m)):
            if rng.random() < 0.85:
                al.add((i, p[i]))
    elif mode == "rand":
        for _ in range(rng.randint(1, n + m)):
            al.add((rng.randrange(n), rng.randrange(m)))
    elif mode == "sparse":
        for _ in range(rng.randint(1, 2)):
            al.add((rng.randrange(n), rng.randrange(m)))
    elif mode == "dense":
        for i in range(n):
            for j in range(m):
                if rng.random() < 0.4:
                    al.add((i, j))
    elif mode == "block":
        i = j = 0
        while i < n and j < m:
            di, dj = rng.randint(1, 3), rng.randint(1, 3)
            for a in range(i, min(n, i + di)):
                for b in range(j, min(m, j + dj)):
                    if rng.random() < 0.7:
                        al.add((a, b))
            i += di
            j += dj
    return al


def phrases(n, m, al, maxlen):
    """source spans with an alignment whose links all lie inside the smallest target span, both within the limit"""
    out = []
    for i in range(n):
        for j in range(i, min(n, i + maxlen)):
            ts = [t for s, t in al if i <= s <= j]
            if not ts:
                continue
            b, e = min(ts), max(ts)
            if e - b + 1 > maxlen:
                continue
            if all(i <= s <= j for s, t in al if b <= t <= e):
                out.append(((i, j), (b, e)))
    return out


def inside(p, q):
    return all(q[k][0] <= p[k][0] and p[k][1] <= q[k][1] for k in (0, 1))


def disjoint(p, q):
    return all(p[k][1] < q[k][0] or q[k][1] < p[k][0] for k in (0, 1))


def build_rule(words, trg, al, ph, subs, maxterm):
    """the rule's printed form, or None when it is outside the limits; subs are in source order"""
    def side(w, k):
        toks, pos = [], {}
        i = ph[k][0]
        nt = 0
        while i <= ph[k][1]:
            h = [x for x, s in enumerate(subs) if s[k][0] == i]
            if h:
                toks.append("x%d:X" % h[0])
                i = subs[h[0]][k][1] + 1
            else:
                pos[i] = len(pos)
                toks.append('"%s"' % w[i])
                i += 1
        return toks, pos
    s, sp = side(words, 0)
    t, tp = side(trg, 1)
    if not sp or not tp or len(sp) > maxterm or len(tp) > maxterm:
        return None
    if len(subs) == 2 and subs[0][0][1] + 1 == subs[1][0][0]:
        return None
    links = sorted("%d-%d" % (sp[a], tp[b]) for a, b in al if a in sp and b in tp)
    return "%s @ X ||| %s @ X" % (" ".join(s), " ".join(t)), " ".join(links)


def extract(words, trg, al, maxlen, maxterm):
    ps = phrases(len(words), len(trg), al, maxlen)
    out = []
    for ph in ps:
        rs = [build_rule(words, trg, al, ph, [], maxterm)]
        ins = [p for p in ps if p != ph and inside(p, ph)]
        for p in ins:
            rs.append(build_rule(words, trg, al, ph, [p], maxterm))
            for q in ins:
                if p[0] < q[0] and disjoint(p, q):
                    rs.append(build_rule(words, trg, al, ph, [p, q], maxterm))
        rs = [r for r in rs if r]
        for r in rs:
            out.append((r[0], r[1], 1.0 / len(rs)))
    return out


def one(c, i):
    rng = c.sub("case%d" % i)
    maxlen = rng.choice([10, 10, 1, 2, 3, 4, 6])
    maxterm = rng.choice([5, 5, 1, 2, 3, 10])
    sents = []
    big = rng.random() < 0.04
    for _ in range(rng.randint(1, 5)):
        n, m = (rng.randint(8, 13), rng.randint(8, 13)) if big else (rng.randint(1, 7), rng.randint(1, 7))
        w = [rng.choice(SVOC) for _ in range(n)]
        t = [rng.choice(TVOC) for _ in range(m)]
        al = gen_align(rng, n, m)
        sents.append((w, t, al, extract(w, t, al, maxlen, maxterm)))
    if rng.random() < 0.1:
        sents.append(([], [], set(), []))
    if rng.random() < 0.05:
        sents.append((["a"], [], set(), []))
    pre = "c%d." % i
    fs = [c.write(pre + "s", "".join(" ".join(s[0]) + "\n" for s in sents)), c.write(pre + "t", "".join(" ".join(s[1]) + "\n" for s in sents)),
          c.write(pre + "a", "".join(" ".join("%d-%d" % x for x in (sorted(s[2]) if rng.random() < 0.5 else rng.sample(sorted(s[2]), len(s[2])))) + "\n" for s in sents))]
    cmd = [c.exe["hiero-extractor"], "-max_initial_phrase", str(maxlen), "-max_terminals", str(maxterm)]
    r = common.run(cmd + fs)
    data = {"cmd": cmd[1:], "src": [" ".join(s[0]) for s in sents], "trg": [" ".join(s[1]) for s in sents], "align": [sorted(s[2]) for s in sents]}
    if not c.expect(r.rc == 0, "died", "hiero-extractor " + r.why(), data):
        return
    got, want = {}, {}
    for l in r.out.split("\n"):
        if l == "":
            continue
        f = l.split(" ||| ")
        if len(f) == 3 and f[2].endswith(" |||"):
            f = f[:2] + [f[2][:-4], ""]
        if not c.expect(len(f) == 4, "format", "malformed rule " + l, data):
            return
        got.setdefault((f[0] + " ||| " + f[1], " ".join(sorted(f[3].split()))), []).append(float(f[2]))
    for s in sents:
        c.case((" ".join(s[0]), " ".join(s[1]), tuple(sorted(s[2])), maxlen, maxterm), len(s[3]) > 1, {"src": s[0], "trg": s[1], "align": sorted(s[2]), "rules": len(s[3])})
        for a, b, x in s[3]:
            want.setdefault((a, b), []).append(x)
    c.count("rules expected", sum(map(len, want.values())))
    c.count("rules printed", sum(map(len, got.values())))
    c.count("two-variable rules", sum(len(v) for k, v in want.items() if "x1:X" in k[0] and "x0:X" in k[0]))
    for k in set(want) | set(got):
        a, b = sorted(want.get(k, [])), sorted(got.get(k, []))
        if not c.expect(len(a) == len(b), "missing" if len(a) > len(b) else "extra", "rule %s printed %d times, %d expected" % (" ||| ".join(k), len(b), len(a)), data):
            continue
        c.expect(all(close(x, y, 2e-5, 1e-9) for x, y in zip(a, b)), "weight", "rule %s has counts %s, expected %s" % (" ||| ".join(k), b, a), data)


def body(c):
    c.rule = "a sentence pair counts when more than one rule is expected; identity = (source, target, alignment, limits)"
    c.assumptions = ["of the target spans consistent with a source span only the shortest one is a phrase pair (unaligned target words at the edges are left out, unaligned source words are not)"]
    c.exe = common.build("asan", bins=["hiero-extractor"])
    common.pmap(lambda i: one(c, i), range(c.n(4500, 40000)))


common.main("C12", body)
