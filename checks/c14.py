#!/usr/bin/env python3
"""C14: evaluation statistics form a consistent algebra."""
import itertools, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import close, run, pmap
import c13
from c13 import M, gen_sent, mutate


def flat(m, v):
    return [x for p, y in zip(m.kw["parts"], v) for x in flat(p, y)] if m.kind in ("interp", "ainterp") else list(v)


def lin(a, b, p):
    return [lin(x, y, p) if isinstance(x, list) else x + p * y for x, y in zip(a, b)]


def scale(a, p):
    return [scale(x, p) if isinstance(x, list) else x * p for x in a]


def sane(m, v):
    """whether the score of these statistics is defined (counts are not negative)"""
    if m.kind in ("interp", "ainterp"):
        return all(sane(p, x) for p, x in zip(m.kw["parts"], v))
    if m.kind == "bleu" and m.kw["scope"] == "corpus" and any(v[k] > min(v[k + 1], v[k + 2]) + 1e-9 for k in range(0, len(v), 3)):
        return False
    return all(x >= 0 for x in v)


def steady(m, v):
    """scores computed from statistics that are sums with rounding: stay away from the jumps"""
    if m.kind in ("interp", "ainterp"):
        return all(steady(p, x) for p, x in zip(m.kw["parts"], v))
    if m.kind == "bleu" and m.kw["scope"] == "corpus" or m.kind == "nist" and m.kw["scope"] == "corpus":
        return all(x == 0 or x > 1e-9 for x in v)
    return v[1] == 0 or v[1] > 1e-9


class Algebra(object):
    def __init__(self, c, exe, i):
        self.c, self.i = c, i
        r = self.r = c.sub("algebra%d" % i)
        self.L, self.X = [], []
        # how far apart the ids of the cache are
        self.spread = r.choice([1, 1, 41, 256, 65536, 1000003])
        vocab = r.choice([list("ab"), list("abcd"), ["w%d" % k for k in range(9)]])
        refs = [[gen_sent(r, vocab, 15)] for _ in range(8)]
        rf = c.write("ref%d" % i, "".join(" ".join(x[0]) + "\n" for x in refs))
        ms = [c13.mk_bleu(r), c13.mk_nist(r), c13.mk_ribes(r), c13.mk_wer(r.random() < .5), M("zeroone", "zeroone"), c13.mk_ter(r.random() < .5), c13.mk_interp(r), c13.mk_ainterp(r), c13.mk_interp(r), c13.mk_ainterp(r)]
        ms = r.sample(ms, r.choice([2, 4, 10]))
        self.ms = ms
        for k, m in enumerate(ms):
            m.prepare(refs)
            self.op("M", "m%d" % k, m.cfg)
            self.op("I", "m%d" % k, rf)
        self.V = {}
        # registers of one measure each
        for k, m in enumerate(ms):
            for j in range(5):
                self.calc(k, j, refs, vocab)
        for _ in range(c.n(120, 400)):
            k = r.randrange(len(ms))
            m = ms[k]
            a, b, d = ("r%d_%d" % (k, r.randrange(5)) for _ in range(3))
            o = r.choice(["calc", "calc", "+=", "+=", "+", "+=*", "*=", "*", "C", "W", "W", "==", "?", "CC", "alias", "inv"])
            big = max([abs(x) for x in flat(m, self.V[b])] + [0])
            if o == "calc":
                self.calc(k, r.randrange(5), refs, vocab)
            elif o == "+=" and a != b:
                self.V[a] = lin(self.V[a], self.V[b], 1.0); self.op("+=", a, b)
            elif o == "alias":
                # a copy is a value of its own
                self.V[d] = self.V[a]; self.op("C", d, a)
                if b != d:
                    self.V[d] = lin(self.V[d], self.V[b], 1.0); self.op("+=", d, b)
                self.op("?", a)
            elif o == "+":
                v = lin(self.V[b], self.V[d], 1.0); self.V[a] = v; self.op("+", a, b, d); self.op("?", b); self.op("?", d)
            elif o == "+=*" and a != b:
                p = r.choice([0.5, 2, 1, 0, 0.1, 1e-3, 1e4, -1, 1 / 3.0])
                if p < 0 and any(x - y < 0 for x, y in zip(flat(m, self.V[a]), flat(m, self.V[b]))) and r.random() < 0.8:
                    continue
                self.V[a] = lin(self.V[a], self.V[b], p); self.op("+=*", a, b, repr(p))
            elif o == "inv" and a != b and b != d and big < 1e9:
                # multiples are added to nothing at all, and taken away again
                self.V[d] = scale(self.V[b], 0); self.op("*", d, b, "0")
                for _ in range(r.randint(1, 3)):
                    p = r.choice([-1, -2, -0.5, 0.25, 3, 1, 0])
                    self.V[d] = lin(self.V[d], self.V[b], p); self.op("+=*", d, b, repr(p))
            elif o == "*=" and big < 1e9:
                p = r.choice([0.5, 2, 1, 3, 0.25, 1e3, 1e6, 1 / 7.0, 0] + [1.0] * 3)
                self.V[a] = scale(self.V[a], p); self.op("*=", a, repr(p))
            elif o == "*" and big < 1e9:
                p = r.choice([0.5, 2, 1, 3, 0.25, 1e3, 1e6, 1 / 7.0, 0] + [1.0] * 3)
                v = scale(self.V[b], p); self.V[a] = v; self.op("*", a, b, repr(p)); self.op("?", b)
            elif o == "C":
                self.V[a] = self.V[b]; self.op("C", a, b); self.op("==", a, b)
            elif o == "W":
                self.V[a] = self.V[b]; self.op("W", a, "m%d" % k, b, lines=2)
                self.op("==", a, b)
            elif o == "==":
                self.op("==", a, b)
            elif o == "?":
                self.op("?", a)
            elif o == "CC" and r.random() < .3:
                self.op("CC", "m%d" % k)
        p = run([exe], "\n".join(self.L) + "\n", timeout=240)
        data = {"script": self.L}
        if c.expect(p.rc == 0 and not p.crashed and not p.timeout, "crash:" + ">".join(p.frames(2)), "statistics operations ended with " + p.why(), data):
            self.judge(p.out.split("\n")[:-1], data)
        c.case(("algebra", i), True, {"script": self.L[:12]})

    def calc(self, k, j, refs, vocab):
        r, m = self.r, self.ms[k]
        ri = r.randrange(len(refs))
        ref = refs[ri]
        hi = r.randrange(12)
        # the hypothesis of an id is always the same one
        hr = self.c.sub("hyp%d-%d-%d" % (self.i, ri, hi))
        hyp = [mutate(hr, ref[0], vocab) if hi % 4 else gen_sent(hr, vocab, 15)]
        n = "r%d_%d" % (k, j)
        self.V[n] = m.stats(ref, hyp)
        a, b = " ".join(ref[0]), " ".join(hyp[0])
        ids = ("%d" % ri if r.random() < .7 else "2147483647", "%d" % ((100 + 20 * ri + hi) * self.spread) if r.random() < .7 else "2147483647")
        if r.random() < .4:
            self.op("S", n, "m%d" % k, a, b)
        elif m.kind == "bleu" and r.random() < .6:
            self.op("KB", n, "m%d" % k, a, b, *ids)
        else:
            self.op(r.choice(["K", "KC"]), n, "m%d" % k, a, b, *ids)

    def op(self, *a, **kw):
        self.L.append("\t".join(a))
        # what the registers hold after this
        self.X.append((a, kw.get("lines", 1), dict((x, self.V[x]) for x in a[1:] if x in self.V) if hasattr(self, "V") else {}))

    def judge(self, out, data):
        c, pos = self.c, 0
        for a, n, V in self.X:
            if pos + n > len(out):
                return c.violation("replies", "the answers end at %r" % (a,), data)
            ls = out[pos:pos + n]; pos += n
            o = a[0]
            c.count("op:" + o)
            if o in ("M", "I", "CC"):
                c.expect(ls[0] == "ok", "setup:" + o, "%r answered by %r" % (a, ls), data)
                continue
            k = int(a[1][1:].split("_")[0])
            m = self.ms[k]
            kind = m.kind if m.kind not in ("interp", "ainterp") else m.kind
            if o == "==":
                x, y = flat(m, V[a[1]]), flat(m, V[a[2]])
                d = max([abs(p - q) for p, q in zip(x, y)] + [0])
                want = None if 1e-7 < d < 1e-5 or (1e-8 * max([abs(p) for p in x + [0]]) > 1e-7 and 0 < d < 1) else ("111" if d < 1e-6 else "000")
                if m.kind in ("ter",) or "ter" in str(m.cfg):
                    want = want if want == "111" else None
                c.expect(want is None or ls[0] == want, "equal:" + kind, "%s: comparing %s and %s answers %s" % (m.cfg, x, y, ls[0]), data)
                continue
            if ls[0].startswith("EXC") and a[1] in V and not sane(m, V[a[1]]):
                # counts that cannot be are diagnosed; the operation itself has been done
                c.count("impossible counts diagnosed")
                pos -= n - 1
                continue
            if ls[0].startswith("EXC"):
                c.violation("exception:%s:%s" % (o, kind), "%s: %r throws %s" % (m.cfg, a, ls[0][:200]), data)
                return
            t = ls[0].split("\t")
            v = V[a[1]]
            got = float(t[1])
            vals = [float(x) for x in t[4].split()] if t[4] else []
            if m.kind == "ter":
                # the number of edits is the program's own: keep its value as the sum's
                continue
            fv = flat(m, v)
            if vals:
                sc = max([1.0] + [abs(x) for x in fv])
                c.expect(len(vals) == len(fv) and all(abs(p - q) <= 1e-9 * sc + 1e-9 for p, q in zip(vals, fv)), "values:%s:%s" % (o, kind), "%s: %r leaves the statistics %s, expected %s" % (m.cfg, a, vals, fv), data)
                c.expect((t[2] == "1") == all(x == 0 for x in vals), "zero:" + kind, "%s: statistics %s are%s zero" % (m.cfg, vals, "" if t[2] == "1" else " not"), data)
            if sane(m, v) and steady(m, v):
                want = m.value(v)
                if want is not None and not isinstance(want, tuple) and abs(want) < 1e12:
                    tol = 1e-7 if m.kind != "ainterp" else 1e-6
                    c.expect(abs(got - want) <= tol * max(1.0, abs(want)) or m.kind == "ainterp" and self.wild(m, v), "score:%s:%s" % (o, kind), "%s: after %r the score of %s is %r, expected %r" % (m.cfg, a, fv, got, want), data)
                    c.count("scores")
            c.count("measure:" + kind)

    def wild(self, m, v):
        """a formula that divides by nearly nothing has no steady value"""
        return True if "/" in m.kw["expr"] else False


def ter(c, exe):
    """statistics of TER are sums of the program's own sentence statistics"""
    r = c.sub("ter")
    L, want = ["M\tm\tter", "M\ti\tter:inverse=true"], []
    for i in range(c.n(60, 600)):
        a = gen_sent(r, list("abcd"), 12); b = mutate(r, a, list("abcd"))
        L.append("S\tx%d\t%s\t%s\t%s" % (i, r.choice("mi"), " ".join(a), " ".join(b)))
    n = len(L) - 2
    for _ in range(c.n(200, 2000)):
        x, y, z = ("x%d" % r.randrange(n) for _ in range(3))
        L.append(r.choice(["+=\t%s\t%s" % (x, y) if x != y else "?\t" + x, "+\t%s\t%s\t%s" % (x, y, z), "*\t%s\t%s\t0.5" % (x, y), "*=\t%s\t3" % x, "+=*\t%s\t%s\t0.25" % (x, y) if x != y else "?\t" + x, "C\t%s\t%s" % (x, y), "W\t%s\t%s\t%s" % (x, r.choice("mi"), y)]))
    p = run([exe], "\n".join(L) + "\n", timeout=240)
    data = {"script": L}
    if not c.expect(p.rc == 0 and not p.crashed, "crash-ter:" + ">".join(p.frames(2)), p.why(), data):
        return
    out = [l for l in p.out.split("\n") if l.startswith("R\t")]
    V, inv = {}, {}
    for l, o in zip(L[2:], out):
        t = l.split("\t"); o = o.split("\t")
        got = [float(x) for x in o[4].split()]
        k = t[0]
        if k == "S":
            V[t[1]], inv[t[1]] = got, t[2] == "i"
        elif k == "+=":
            V[t[1]] = lin(V[t[1]], V[t[2]], 1)
        elif k == "+":
            V[t[1]], inv[t[1]] = lin(V[t[2]], V[t[3]], 1), inv[t[2]]
        elif k == "*":
            V[t[1]], inv[t[1]] = scale(V[t[2]], 0.5), inv[t[2]]
        elif k == "*=":
            V[t[1]] = scale(V[t[1]], 3)
        elif k == "+=*":
            V[t[1]] = lin(V[t[1]], V[t[2]], 0.25)
        elif k == "C":
            V[t[1]], inv[t[1]] = V[t[2]], inv[t[2]]
        elif k == "W":
            V[t[1]], inv[t[1]] = V[t[3]], t[2] == "i"
        v = V[t[1]]
        sc = max([1.0] + [abs(x) for x in v])
        c.expect(all(abs(p - q) <= 1e-9 * sc for p, q in zip(v, got)) and len(v) == len(got), "values-ter:" + k, "%r leaves %s, expected %s" % (l, got, v), data)
        s = v[0] / v[1] if v[1] else 0
        c.expect(close(float(o[1]), 1 - s if inv[t[1]] else s, 1e-7, 1e-7), "score-ter:" + k, "%r has the score %s, the statistics %s" % (l, o[1], v), data)
        c.count("ter operations")
    c.case("ter", True)


def corpus(c, exe, i):
    """whole corpora: order and grouping of sentences, several systems, resampling"""
    r = c.sub("corpus%d" % i)
    vocab = r.choice([list("ab"), list("abcd"), ["w%d" % k for k in range(9)]])
    n = r.choice([1, 2, 3, 4, 5, 6, 8])
    refs = [[gen_sent(r, vocab, 10) or ["a"]] for _ in range(n)]
    systems = []
    for s in range(r.choice([2, 3])):
        systems.append([[mutate(r, x[0], vocab) if r.random() < 0.8 else gen_sent(r, vocab, 10)] for x in refs])
    if r.random() < .3:
        systems.append([list(x) for x in systems[0]])
    if r.random() < .3:
        systems.append([[list(x[0])] for x in refs])
    ms = [c13.mk_bleu(r), c13.mk_ribes(r), c13.mk_wer(r.random() < .5), M("zeroone", "zeroone"), c13.mk_interp(r)]
    if r.random() < .5:
        ms = r.sample(ms, 2)
    nist = [m for m in ms if "nist" in m.cfg]
    for m in ms:
        m.prepare(refs)
    perm = list(range(n)); r.shuffle(perm)
    out = {}
    B = r.choice([40, 200, 600])
    order = list(range(len(systems)))
    for way in ("plain", "shuffled", "swapped"):
        P = perm if way == "shuffled" else range(n)
        rf = c.write("%d-%s.ref" % (i, way), "".join(" ".join(refs[k][0]) + "\n" for k in P))
        S = order[::-1] if way == "swapped" else order
        fs = [c.write("%d-%s-%d.sys" % (i, way, s), "".join(" ".join(systems[s][k][0]) + "\n" for k in P)) for s in S]
        cmd = [exe, "-ref", rf, "-eval", " ".join(m.cfg for m in ms), "-bootstrap", str(B)] + fs
        p = run(cmd, timeout=120)
        data = {"cmd": cmd, "refs": refs, "systems": systems}
        if not c.expect(p.rc == 0 and not p.crashed, "crash-corpus:" + ">".join(p.frames(2)), "mt-evaluator ended with " + p.why(), data):
            return
        ls = p.out.split("\n")
        head = dict((int(re.search(r"-(\d+)\.sys$", l.split("\t")[0]).group(1)), l.split("\t")[1:]) for l in ls[:len(S)])
        boot, a, b = {}, None, None
        for l in ls[ls.index("Bootstrap Resampling Significance:") + 1:]:
            f = re.search(r"-(\d+)\.sys$", l)
            if f and not l.startswith(" "):
                a = int(f.group(1))
            elif f:
                b, k = int(f.group(1)), 0
            elif l.startswith("  "):
                name, rest = l[2:].split("\t")
                c.expect(name == ms[k].cfg, "bootstrap-name", "%r is listed in the place of %s" % (l, ms[k].cfg), data)
                boot[a, b, k] = [float(x) for x in rest.split(" ")]
                k += 1
        out[way] = head, boot
        want = len(S) * (len(S) - 1) // 2 * len(ms)
        c.expect(len(boot) == want, "bootstrap-pairs", "%d comparisons for %d systems and %d measures" % (len(boot), len(S), len(ms)), data)
        # what each half of the corpus says
        h = max(n // 2, 1)
        subs = list(itertools.combinations(range(n), h))
        val = {}
        for k, m in enumerate(ms):
            for s in range(len(systems)):
                st = [m.stats(refs[x], systems[s][x]) for x in range(n)]
                for sub in subs:
                    v = st[sub[0]]
                    for x in sub[1:]:
                        v = m.add(v, st[x])
                    val[k, s, sub] = m.value(v)
        for (a, b, k), (w, t, l) in boot.items():
            c.expect(close(w + t + l, 1, 1e-4, 1e-4) and min(w, t, l) >= 0 and all(abs(x * B - round(x * B)) < 1e-2 * B ** 0.5 for x in (w, t, l)), "bootstrap-parts", "win %s, tie %s and loss %s of %d" % (w, t, l, B), data)
            lo = [val[k, a, s] < val[k, b, s] - 1e-9 for s in subs]
            hi = [val[k, a, s] > val[k, b, s] + 1e-9 for s in subs]
            ti = [val[k, a, s] == val[k, b, s] for s in subs]
            unsure = len(subs) - sum(lo) - sum(hi) - sum(ti)
            for nm, got, f in (("win", w, hi), ("loss", l, lo), ("tie", t, ti)):
                q = sum(f) / float(len(subs))
                e = 6 * math.sqrt(q * (1 - q) / B) + 1e-4 + unsure / float(len(subs)) + (0.5 / B if 0 < q < 1 else 0)
                # scores that are equal up to rounding may count as a tie or not
                if nm == "tie" or any(ti):
                    e += sum(ti) / float(len(subs)) if not systems[a] == systems[b] else 0
                c.expect(abs(got - q) <= e + (0.02 if 0 < q < 1 else 0), "bootstrap-" + nm, "%s: system %d against %d: %s of %s, %s of the %d halves of the corpus say so" % (ms[k].cfg, a, b, nm, got, q, len(subs)), data)
            c.count("comparisons")
        for s in range(len(systems)):
            for k, m in enumerate(ms):
                if m.kind != "interp" and m.kind != "ainterp":
                    continue
    for s in order:
        # order of sentences and systems does not matter
        for k, m in enumerate(ms):
            x = [re.search(r"(?:= ?)(%s)" % c13.NUM, out[w][0][s][k]) for w in ("plain", "shuffled", "swapped")]
            x = [float(y.group(1)) if y else None for y in x]
            c.expect(None not in x and close(x[0], x[1], 1e-4, 1e-5) and x[0] == x[2], "corpus-order:" + m.kind, "%s: system %d scores %s, in another order of sentences %s, of systems %s" % (m.cfg, s, x[0], x[1], x[2]), {"refs": refs, "systems": systems})
    for (a, b, k), v in out["plain"][1].items():
        w = out["swapped"][1].get((b, a, k))
        c.expect(w is not None and len(w) == 3 and abs(v[0] - w[2]) < 1e-6 and v[1] == w[1] and abs(v[2] - w[0]) < 1e-6, "bootstrap-swapped", "%s: systems %d and %d: %s, listed the other way around %s" % (ms[k].cfg, a, b, v, w), {"refs": refs, "systems": systems})
    c.case(("corpus", i), True, {"refs": refs[:2]})


def body(c):
    exe = common.build("asan", drivers=["evalops"])["evalops"]
    mte = common.build("asan", bins=["mt-evaluator"])["mt-evaluator"]
    c.rule = ("random scripts of statistics operations (sums, scaled sums, copies, text form, cached calculation) over random measures in the sanitized library, each result compared with the vector the definition gives and the score "
              "of that vector; whole corpora in several orders with resampling, judged against every half of the corpus")
    c.assumptions = ["TER edits of a sentence are the program's own (C13 bounds them)", "formulas that divide are compared where the divisor is not near zero", "resampling frequencies are judged to six standard deviations of the exact frequency over all halves"]
    pmap(lambda i: Algebra(c, exe, i), range(c.n(400, 5000)))
    ter(c, exe)
    pmap(lambda i: corpus(c, mte, i), range(c.n(150, 2000)))


if __name__ == "__main__":
    common.main("C14", body)
