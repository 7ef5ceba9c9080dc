#!/usr/bin/env python3
"""C03: histories of interning, parsing and printing against a dictionary model; hostile words through the decoder."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt

ATOMS = ['"', "'", "\\", "@", "x", "x0", "x1", ":", "|", "||", "|||", "(", ")", "[", "]", "{", "}", ",", "=", "&", "<", ">", "&quot;", "-1", "0", "7",
         "犬", "é", "\u00a0", "\u3000", "\U0001F600", "a", "b", "NP", "-LRB-", "#", "%", "$", ";", "\x01", "\x7f", "/", "*", "+", "_", ".", "~", "^"]


def h(s):
    return s.encode("utf8", "surrogateescape").hex()


def un(x):
    return bytes.fromhex(x).decode("utf8", "surrogateescape")


def word(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(ATOMS)
    if r < 0.8:
        return "".join(rng.choice(ATOMS) for _ in range(rng.randint(1, 4)))
    if r < 0.9:
        return "w%d" % rng.randrange(200)
    if r < 0.95:
        return "w" * rng.choice([1, 10, 100, 1000])
    return bytes(rng.choice([0x80, 0xff, 0xc3, 0xe3, 0x41, 0xa0, 0x85]) for _ in range(rng.randint(1, 4))).decode("utf8", "surrogateescape")


WS = [" ", "  ", "\t", " \t ", "\r", "\v", "\f"]


def phrase(rng, n):
    ws = [word(rng) for _ in range(n)]
    ws = [w for w in ws if w != "|COL|"]
    return ws, rng.choice(["", " "]) + "".join(w + rng.choice(WS if rng.random() < 0.2 else [" "]) for w in ws)


def ann(rng):
    """one factor: the structure and its text"""
    words, txt = [], []
    syms = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        if rng.random() < 0.35:
            k = rng.choice([0, 1, 2, 3, 10, 31])
            words.append(-1 - k)
            if k in syms and syms[k] is not None:
                txt.append("x%d:%s" % (k, syms[k]))
            elif rng.random() < 0.5:
                s = word(rng)
                syms[k] = s
                txt.append("x%d:%s" % (k, s))
            else:
                txt.append("x%d" % k)
        else:
            w = word(rng)
            words.append(w)
            txt.append('"%s"' % w)
    label = word(rng) if rng.random() < 0.5 else None
    if label is not None:
        txt += ["@", label]
    sl = [None] * (max(syms) + 1) if syms else []
    for k in syms:
        sl[k] = syms[k]
    return (words, label, sl), txt


def enc(cfg):
    words, label, syms = cfg
    return "%s;%s;%s" % (",".join(str(w) if isinstance(w, int) else h(w) for w in words), "-" if label is None else h(label),
                         ",".join("-" if s is None else h(s) for s in syms))


def canon(cfg):
    """the text of one factor in the form the program prints"""
    words, label, syms = cfg
    out = []
    for w in words:
        if isinstance(w, int):
            k = -1 - w
            out.append("x%d" % k + (":" + syms[k] if k < len(syms) and syms[k] is not None else ""))
        else:
            out.append('"%s"' % w)
    s = " ".join(out)
    if label is not None:
        s += " @ " + label
    return s


def xmlenc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("'", "&apos;").replace("<", "&lt;").replace(">", "&gt;")


def script(rng, n, ids_only=False):
    """-> list of (command, judge(reply) -> None or what is wrong, key)"""
    out = []
    pool = [word(rng) for _ in range(rng.choice([5, 50, 500]))]
    for _ in range(n):
        k = rng.choice(["wid", "wid", "words", "wordvec", "ann", "ann", "json", "xml", "esc", "nt", "set"])
        if ids_only:
            k = rng.choice(["wid", "words", "ann"])
        if k == "wid":
            w = rng.choice(pool) if rng.random() < 0.8 else word(rng) + word(rng)
            out.append(("wid " + h(w), ("wid", w)))
        elif k == "words":
            ws, t = phrase(rng, rng.choice([0, 1, 2, 5, 30]))
            out.append(("words " + h(t), ("is", ",".join(h(w) for w in ws) + " " + h(" ".join(ws)))))
        elif k == "wordvec":
            f = [phrase(rng, rng.choice([0, 1, 2, 5])) for _ in range(rng.choice([1, 1, 2, 3]))]
            t = " |COL| ".join(" ".join(ws) for ws, _ in f)
            # an empty factor at either end loses the blank that delimits it
            if len(f) > 1 and any(not ws for ws, _ in f):
                continue
            out.append(("wordvec " + h(t), ("is", "|".join(enc((ws, None, [])) for ws, _ in f) + " " + h(t))))
        elif k == "ann":
            f = [ann(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if any("|COL|" in t for _, t in f) or (len(f) > 1 and any(not t for _, t in f)):
                continue
            t = " |COL| ".join(" ".join(x) for _, x in f)
            p = " |COL| ".join(canon(c) for c, _ in f)
            out.append(("ann " + h(t), ("is", "|".join(enc(c) for c, _ in f) + " " + h(p) + " 1")))
        elif k == "json":
            w = word(rng)
            out.append(("json " + h(w), ("json", w)))
        elif k == "xml":
            w = word(rng)
            out.append(("xml " + h(w), ("is", h(xmlenc(w)))))
        elif k == "esc":
            w = word(rng)
            out.append(("esc " + h(w), ("is", h(w.replace("\\", "\\\\").replace('"', '\\"')))))
        elif k == "nt":
            f, t = ann(rng)
            pos = [i for i, w in enumerate(f[0]) if isinstance(w, int)]
            order, mx, ok = [f[0][i] for i in pos], 0, True
            for w in order:
                ok = ok and w == mx - 1
                mx = w
            out.append(("nt " + h(" ".join(t)), ("is", "".join("%d," % p for p in pos) + " %d" % ok)))
        elif k == "set":
            ws = [word(rng) for _ in range(rng.choice([1, 2, 10, 60]))]
            ws += [rng.choice(ws) for _ in range(3)]
            ids = {}
            for w in ws:
                ids.setdefault(w, len(ids))
            e = "%d %d %d -1 " % (len(ids), len(ids), len(ids)) + "".join("%d,%d,%d,%s,%s,%s " % ((ids[w],) * 3 + (h(w),) * 3) for w in ws)
            out.append(("set " + h("\n".join(ws)), ("set", (ws, e))))
    return out


def judge(c, cmd, want, line, ids, data):
    kind, w = want
    op = cmd.split(" ")[0]
    bad = None
    if kind == "is":
        if line != w:
            bad = "replied %s instead of %s" % (line[:400], w[:400])
    elif kind == "wid":
        t = line.split(" ")
        if len(t) != 2 or t[1] != h(w):
            bad = "symbol of its id is %s" % line
        elif int(t[0]) < 0:
            bad = "has id " + t[0]
        elif ids["of"].setdefault(w, t[0]) != t[0]:
            bad = "has ids %s and %s" % (ids["of"][w], t[0])
        elif ids["is"].setdefault(t[0], w) != w:
            bad = "shares the id %s with %r" % (t[0], ids["is"][t[0]])
    elif kind == "json":
        try:
            j = json.loads(bytes.fromhex(line).decode("utf8", "surrogateescape"), strict=False)
        except ValueError:
            j = None
        if j != w:
            bad = "written to JSON as %r" % line
    elif kind == "set":
        # ids are dense; which number a symbol gets is not prescribed
        ws, e = w
        t = line.rstrip(" ").split(" ")
        nd = str(len(set(ws)))
        if t[:4] != [nd, nd, nd, "-1"] or len(t) != 4 + len(ws):
            bad = "replied %s instead of %s" % (line[:300], e[:300])
        else:
            seen = {}
            for x, cell in zip(ws, t[4:]):
                f = cell.split(",")
                if len(set(f[:3])) != 1 or len(set(f[3:])) != 1 or f[3] != h(x) or not 0 <= int(f[0]) < int(nd) or seen.setdefault(f[0], x) != x:
                    bad = "%r became %s" % (x, cell)
    c.count("operations " + op)
    if bad:
        c.violation("op-" + op, "%s (%s): %s" % (cmd[:200], repr(un(cmd.split(" ", 1)[1]) if " " in cmd else "")[:200], bad), data)
        return False
    return True


def history(c, i):
    rng = c.sub("h%d" % i)
    sc = script(rng, rng.choice([20, 100, 400]))
    inp = "".join(cmd + "\n" for cmd, _ in sc)
    r = common.run([c.exe["dictops"]], inp, timeout=60)
    data = {"script": inp}
    if not c.expect(r.rc == 0, "died", "driver " + r.why(), data):
        return
    lines = r.out.split("\n")[:-1]
    if not c.expect(len(lines) == len(sc), "lines", "%d replies to %d commands" % (len(lines), len(sc)), data):
        return
    ids = {"of": {}, "is": {}}
    for (cmd, want), line in zip(sc, lines):
        if not judge(c, cmd, want, line, ids, data):
            return
    c.case(inp, bool(sc), {"script": [x for x, _ in sc[:4]]})
    c.count("distinct ids seen", len(ids["is"]))


def threads(c, i):
    rng = c.sub("t%d" % i)
    sc = script(rng, rng.choice([200, 1000, 3000]), ids_only=True)
    inp = "".join(cmd + "\n" for cmd, _ in sc)
    f = c.write("t%d" % i, inp)
    T = rng.choice([2, 4, 8, 16])
    r = common.run([c.exe["dictops"], "threads", str(i), str(T), f], timeout=120)
    data = {"script": inp, "threads": T}
    os.unlink(f)
    if not c.expect(r.rc == 0, "threads-died", "driver " + r.why(), data):
        return
    lines = r.out.split("\n")[:-1]
    if not c.expect(len(lines) == len(sc) * T, "threads-lines", "%d replies to %d commands in %d threads" % (len(lines), len(sc), T), data):
        return
    ids = {"of": {}, "is": {}}
    for k, (cmd, want) in enumerate(sc):
        for t in range(T):
            if not judge(c, cmd, want, lines[k * T + t], ids, data):
                return
    c.case(inp, True)
    c.count("operations in threads", len(sc) * T)


def system(c, i):
    """words nobody has a rule for come out as they went in; words of rules come out as the rule table has them"""
    rng = c.sub("s%d" % i)
    okc = lambda w: not re.search(r"[()\x00-\x20]", w) and w not in ("|COL|", "@") and w.strip() == w and "\u00a0" not in w and not re.search("[\u0080-\u00a0\u2000-\u200a\u2028\u2029\u3000]", w)
    words = [w for w in (word(rng) for _ in range(60)) if okc(w) and w.encode("utf8", "surrogateescape").decode("utf8", "ignore") == w and "|||" not in w and "|COL|" not in w]
    nf = rng.choice([1, 1, 2, 3])
    storage = rng.choice(["hash", "marisa", "fsm"])
    rules, want_of = [], {}
    for w in rng.sample(words, min(len(words), rng.randint(0, 12))):
        if w in want_of:
            continue
        trg = [[x for x in rng.sample(words, rng.randint(1, 3))] for _ in range(nf)]
        want_of[w] = " |COL| ".join(" ".join(t) for t in trg)
        s = '"%s" @ X' % w if storage == "fsm" else 'X ( "%s" )' % w
        rules.append("%s ||| %s ||| p=1" % (s, " |COL| ".join(" ".join('"%s"' % x for x in t) + (" @ X" if storage == "fsm" else "") for t in trg)))
    if storage == "fsm":
        col = lambda s: " |COL| ".join([s] * nf)
        rules.append('x0:X @ S ||| %s ||| g=1' % col("x0:X @ S"))
        rules.append('x0:S x1:X @ S ||| %s ||| g=1' % col("x0:S x1:X @ S"))
    sents = [[rng.choice(words) for _ in range(rng.randint(1, 9))] for _ in range(rng.choice([1, 5, 30]))]
    if storage == "fsm":
        inp = "".join(" ".join(s) + "\n" for s in sents)
    else:
        inp = "".join("(S %s)\n" % " ".join("(X %s)" % w for w in s) for s in sents)
    rt = c.write("s%d.rt" % i, "".join(x + "\n" for x in rules))
    nb = c.path("s%d.nb" % i)
    cf = mt.config(c.write, "s%d.cfg" % i, tm_file=rt, tm_storage=storage, in_format="word" if storage == "fsm" else "penn", trg_factors=nf, threads=rng.choice([1, 4]),
                   binarize=rng.choice(["none", "left", "right"]), nbest=1, nbest_out=nb, weight_vals="p=1\nunk=-5\ng=0")
    r = common.run([c.exe["travatar"], "-config_file", cf], inp, timeout=120)
    data = {"rules": rules, "input": inp, "config": open(cf).read()}
    if not c.expect(r.rc == 0, "system-died", "decoder " + r.why(), data):
        return
    out = r.out.split("\n")[:-1]
    nbl = [l.split(" ||| ")[1] for l in open(nb, errors="surrogateescape", encoding="utf8").read().split("\n")[:-1]]
    for f in (rt, nb, cf):
        os.unlink(f)

    def yields(s):
        # word by word; the factors of a sentence are the concatenation of its words' factors
        cols = [[] for _ in range(nf)]
        for w in s:
            parts = want_of[w].split(" |COL| ") if w in want_of else [w] * nf
            for k in range(nf):
                cols[k].append(parts[k])
        return " |COL| ".join(" ".join(x) for x in cols)
    for k, s in enumerate(sents):
        w = yields(s)
        if k >= len(out) or out[k] != w or nbl[k] != w:
            c.violation("system-" + storage, "sentence %r became %r / %r, should be %r" % (s, out[k] if k < len(out) else None, nbl[k] if k < len(nbl) else None, w), data)
            return
    c.case(("sys", inp, tuple(rules)), True)
    c.count("words through the decoder", sum(len(s) for s in sents))


def body(c):
    c.rule = "one history of interning, parsing and printing (or one decoding job over hostile words); identity = its text"
    c.assumptions = ["symbols contain no white space of the C locale and are not the reserved |COL|", "an empty factor among several is not judged (its blanks are the delimiters)"]
    c.exe = common.build("asan", bins=["travatar"], drivers=["dictops"])
    common.pmap(lambda i: history(c, i), range(c.n(500, 8000)), 8)
    common.pmap(lambda i: threads(c, i), range(c.n(40, 500)), 3)
    common.pmap(lambda i: system(c, i), range(c.n(250, 3000)), 8)


common.main("C03", body)
