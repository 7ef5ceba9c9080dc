"""Random back-off n-gram models in ARPA form, and their definition-level evaluator."""
import math


class LM(object):
    def __init__(self, order, grams, has_unk=True):
        self.order, self.grams, self.has_unk = order, grams, has_unk
        self.vocab = set(g[0] for g in grams if len(g) == 1)

    def text(self):
        out = ["\\data\\"]
        by = {}
        for g in self.grams:
            by.setdefault(len(g), []).append(g)
        for n in range(1, self.order + 1):
            out.append("ngram %d=%d" % (n, len(by.get(n, []))))
        for n in range(1, self.order + 1):
            out.append("\n\\%d-grams:" % n)
            for g in by.get(n, []):
                p, b = self.grams[g]
                if n < self.order and b is not None:
                    out.append("%s\t%s\t%s" % (repr(p), " ".join(g), repr(b)))
                else:
                    out.append("%s\t%s" % (repr(p), " ".join(g)))
        out.append("\n\\end\\\n")
        return "\n".join(out)

    def word(self, w):
        return w if w in self.vocab else "<unk>"

    def cond(self, hist, w):
        """log10 p(w | hist), by the back-off definition; both already mapped to the vocabulary"""
        h = tuple(hist)[-(self.order - 1):] if self.order > 1 else ()
        tot = 0.0
        while True:
            g = h + (w,)
            if g in self.grams:
                return tot + self.grams[g][0]
            if not h:
                return tot - 100.0
            tot += (self.grams.get(h, (0, 0))[1] or 0.0)
            h = h[1:]

    def sentence(self, words):
        """(total log10 probability with sentence boundaries, number of unknown words)"""
        ws = [self.word(w) for w in words]
        h = ["<s>"]
        tot = 0.0
        for w in ws + ["</s>"]:
            tot += self.cond(h, w)
            h.append(w)
        return tot, sum(1 for w in ws if w == "<unk>")


def gen(rng, vocab, order, density=3.0, closed=True, unk=True, lo=-3.0):
    """closed: the suffix of every n-gram is an n-gram too (as estimation without pruning makes it)"""
    g = {}
    # (a trie stores backed-off probabilities of missing suffixes, which must not exceed one)
    bo = lambda: round(rng.uniform(-1.5, 0.3 if closed else 0.0), 3) if rng.random() < 0.9 else 0.0
    names = (["<unk>"] if unk else []) + ["<s>", "</s>"] + list(vocab)
    if rng.random() < 0.5:
        rng.shuffle(names)
    for w in names:
        if w == "<s>":
            g[(w,)] = (-99.0, bo())
        elif w in ("</s>", "<unk>"):
            g[(w,)] = (round(rng.uniform(lo, -0.1), 3), None if rng.random() < 0.7 else 0.0)
        else:
            g[(w,)] = (round(rng.uniform(lo, -0.1), 3), bo() if rng.random() < 0.95 else None)
    prev = list(g)
    for n in range(2, order + 1):
        ctx = [c for c in prev if c[-1] not in ("</s>", "<unk>")]
        new = []
        want = int(density * len(vocab)) + 1
        for _ in range(want * 3):
            if len(new) >= want or not ctx:
                break
            c = rng.choice(ctx)
            w = rng.choice(list(vocab) + ["</s>"])
            x = c + (w,)
            if x in g:
                continue
            if closed and x[1:] not in g:
                continue
            g[x] = (round(rng.uniform(lo, -0.02), 3), bo() if n < order and w != "</s>" else None)
            new.append(x)
        if not new:
            # an empty order is not allowed
            return LM(n - 1, g, unk) if n > 2 else gen(rng, vocab, order, density + 2, closed, unk, lo)
        prev = new
    return LM(order, g, unk)
