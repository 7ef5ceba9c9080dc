"""Independent re-implementations of the evaluation measures (from their definitions)."""
import math
from collections import Counter


def grams(s, n):
    return Counter(tuple(s[i:i + n]) for i in range(len(s) - n + 1))


def bleu_stats(ref, hyp, order):
    v = []
    for n in range(1, order + 1):
        r, h = grams(ref, n), grams(hyp, n)
        v += [sum(min(c, r[g]) for g, c in h.items()), max(len(hyp) - n + 1, 0), max(len(ref) - n + 1, 0)]
    return v


def bleu_score(v, order=4, smooth=0.0, prec=1.0, mean="geom", inverse=False, brev=True):
    """returns (score, per-order scores, brevity penalty, hyp_len, ref_len)"""
    comps = []
    for n in range(order):
        s = smooth if n else 0.0
        m, h, r = v[3 * n] + s, v[3 * n + 1] + s, v[3 * n + 2] + s
        f = m / (prec * h + (1 - prec) * r) if h != 0 else 0.0
        comps.append(1 - f if inverse else f)
    if mean == "geom":
        avg = 0.0 if min(comps) <= 0 else math.exp(sum(math.log(c) for c in comps) / order)
    else:
        avg = sum(comps) / order
    hl, rl = v[1], v[2]
    bp = 1.0
    if brev:
        if hl == 0:
            bp = 0.0 if rl > 0 else 1.0
        elif hl < rl:
            bp = math.exp(1.0 - float(rl) / hl)
    return avg * bp, comps, bp, hl, rl


def nist_weights(refs, order):
    c = Counter()
    total = 0
    for r in refs:
        total += len(r)
        for n in range(1, order + 1):
            c.update(grams(r, n))
    w = {}
    for g, k in c.items():
        w[g] = math.log((c[g[:-1]] if len(g) > 1 else total) / float(k), 2)
    return w


NIST_BETA = -math.log(0.5) / math.log(1.5) ** 2


def nist_stats(ref, hyp, order, w):
    v = []
    for n in range(1, order + 1):
        r, h = grams(ref, n), grams(hyp, n)
        v += [sum(min(c, r[g]) * w[g] for g, c in h.items() if g in r), max(len(hyp) - n + 1, 0)]
    return v + [len(ref)]


def nist_score(v, order=5, beta=NIST_BETA):
    comps = [v[2 * n] / v[2 * n + 1] if v[2 * n + 1] else 0.0 for n in range(order)]
    hl, rl = v[1], v[-1]
    if rl == 0 or hl >= rl:
        bp = 1.0
    elif hl == 0:
        bp = 0.0
    else:
        bp = math.exp(-beta * math.log(hl / float(rl)) ** 2)
    return sum(comps) * bp, comps, bp, hl, rl


def edit(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


def _occ(s, g):
    n = len(g)
    return [i for i in range(len(s) - n + 1) if s[i:i + n] == g]


def ribes(ref, hyp, alpha=0.25, beta=0.10):
    """RIBES 1.02.3: rank correlation over words aligned one-to-one by their (growing) context"""
    if not ref:
        return 1.0 if not hyp else 0.0
    if not hyp:
        return 0.0
    bp = min(1.0, math.exp(1.0 - len(ref) / float(len(hyp))))
    ranks = []
    for i, w in enumerate(hyp):
        if w not in ref:
            continue
        if ref.count(w) == 1 and hyp.count(w) == 1:
            ranks.append(ref.index(w))
            continue
        for win in range(1, max(i + 1, len(hyp) - i + 1)):
            if win <= i:
                g = hyp[i - win:i + 1]
                r = _occ(ref, g)
                if len(r) == 1 and len(_occ(hyp, g)) == 1:
                    ranks.append(r[0] + len(g) - 1)
                    break
            if i + win < len(hyp):
                g = hyp[i:i + win + 1]
                r = _occ(ref, g)
                if len(r) == 1 and len(_occ(hyp, g)) == 1:
                    ranks.append(r[0])
                    break
    n = len(ranks)
    if n == 1 and len(ref) == 1:
        return (1.0 / len(hyp)) ** alpha * bp ** beta
    if n < 2:
        return 0.0
    asc = sum(1 for i in range(n) for j in range(i + 1, n) if ranks[i] < ranks[j])
    return asc / (n * (n - 1) / 2.0) * (float(n) / len(hyp)) ** alpha * bp ** beta


def ter_bounds(ref, hyp):
    """(lower, upper) bounds of the number of TER edits (shifts, insertions, deletions, substitutions)"""
    if ref == hyp:
        return 0, 0
    ov = sum((Counter(ref) & Counter(hyp)).values())
    lo = max(1, max(len(ref), len(hyp)) - ov)
    hi = edit(ref, hyp)
    if max(len(ref), len(hyp)) > 19:
        # the alignment is only searched in a beam of 20 around the diagonal
        hi = max(len(ref), len(hyp))
    return lo, hi


def one_shift(ref, hyp):
    """fewest edits using at most one block move of words that occur in that order in the reference"""
    best = edit(ref, hyp)
    n = len(hyp)
    for i in range(n):
        for j in range(i + 1, n + 1):
            seg = hyp[i:j]
            if not _occ(ref, seg):
                break
            rest = hyp[:i] + hyp[j:]
            for p in range(len(rest) + 1):
                best = min(best, 1 + edit(ref, rest[:p] + seg + rest[p:]))
    return best
