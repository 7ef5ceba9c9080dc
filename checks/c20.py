#!/usr/bin/env python3
"""C20: the compressed string trie against a set of keys."""
import bisect, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common

CACHE = [0, 0x80, 0x100, 0x200, 0x400, 0x800]
TAIL = [0, 0x1000, 0x2000]
ORDER = [0, 0x10000, 0x20000]


def hx(k):
    return k.hex() or "-"


def gen_keys(rng, kind, n):
    if kind == "binary":
        ab = bytes(rng.sample(range(256), rng.choice([2, 3, 8, 256])))
        return [bytes(rng.choice(ab) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 17]))) for _ in range(n)]
    if kind == "nul":
        return [bytes(rng.choice(b"\0\0ab\xff") for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))) for _ in range(n)]
    if kind == "rules":
        out = []
        for _ in range(n):
            out.append((" ".join(rng.choice(['"a"', '"bc"', "x0:NP", "NP (", ")", "VP", '"犬"']) for _ in range(rng.randint(1, 7)))).encode())
        return out
    if kind == "chain":
        b = bytes(rng.choice(b"xy") for _ in range(n))
        return [b[:i] for i in range(n)] if rng.random() < 0.5 else [b[i:] for i in range(n)]
    if kind == "numbers":
        return [b"%d" % rng.randrange(10 ** rng.choice([1, 3, 6])) for _ in range(n)]
    if kind == "long":
        p = bytes(rng.randrange(256) for _ in range(rng.choice([300, 3000])))
        return [p[:rng.randrange(len(p))] + bytes([rng.randrange(256)]) * rng.choice([0, 1, 600]) for _ in range(n)]
    words = [b"the", b"then", b"there", b"a", b"an", b"and", b"", "é".encode(), b"thermo", b"ther"]
    return [b"".join(rng.choice(words) for _ in range(rng.randint(0, 4))) for _ in range(n)]


def script(rng, big):
    kind = rng.choice(["binary", "nul", "rules", "chain", "numbers", "words", "words"] + (["long"] if not big else []))
    n = rng.choice([0, 1, 2, 5, 20, 100, 600]) if not big else rng.choice([5000, 20000, 70000])
    if kind == "chain":
        n = min(n, 300)
    if kind == "long":
        n = min(n, 40)
    keys = gen_keys(rng, kind, n)
    wts = rng.choice([lambda: 1.0, lambda: rng.choice([0.5, 1.0, 3.0, 100.0]), lambda: rng.random()])
    flags = rng.choice([0, 0, 1, 2, 3, 5, 16, 127]) | rng.choice(CACHE) | rng.choice(TAIL) | rng.choice(ORDER)
    cmds = ["key %s %r" % (hx(k), wts()) for k in keys] + ["build %#x" % flags]
    S = sorted(set(keys))
    exp = [("build", keys, flags)]
    nq = 40 if not big else 150

    def query():
        r = rng.random()
        if keys and r < 0.5:
            k = rng.choice(keys)
        elif keys and r < 0.7:
            k = rng.choice(keys)
            k = k[:rng.randint(0, len(k))]
        elif keys and r < 0.85:
            k = rng.choice(keys) + rng.choice(keys)[:3]
        elif keys and r < 0.95:
            k = bytearray(rng.choice(keys))
            if k:
                k[rng.randrange(len(k))] = rng.randrange(256)
            k = bytes(k)
        else:
            k = bytes(rng.randrange(256) for _ in range(rng.randint(0, 6)))
        return k
    for rnd in range(rng.choice([1, 1, 2, 3])):
        open_ = {}
        for _ in range(nq):
            g = rng.randrange(3)
            q = query()
            op = rng.choice(["look", "look", "cps", "cps", "pred", "rev", "rev", "part"])
            if op == "rev":
                i = rng.choice([rng.randrange(len(S)) if S else 0, len(S), 1 << 31, (1 << 32) - 1]) if rng.random() < 0.2 else (rng.randrange(len(S)) if S else 0)
                cmds.append("rev%d %d" % (g, i))
                exp.append(("rev", i))
            elif op == "part":
                # two agents in the middle of their searches at once
                w = rng.choice(["cps", "pred"])
                a, b = 0, 1
                q2 = query()
                cmds.append("%s%d %s 1" % (w, a, hx(q)))
                exp.append((w, q, 1))
                w2 = rng.choice(["cps", "pred"])
                cmds.append("%s%d %s 1" % (w2, b, hx(q2)))
                exp.append((w2, q2, 1))
                for k in range(rng.randint(1, 4)):
                    # a search that has ended starts anew, so only go on while there is a next result
                    for (x, g2, qq) in ((w, a, q), (w2, b, q2)):
                        cmds.append("%s%d" % ("cpn" if x == "cps" else "prn", g2))
                        exp.append(("next", x, qq, k + 1))
            elif op == "pred" and big and len(q) < 2 and rng.random() < 0.9:
                cmds.append("pred%d %s 20" % (g, hx(q)))
                exp.append(("pred", q, 20))
            else:
                cmds.append("%s%d %s" % (op, g, hx(q)))
                exp.append((op, q, 1 << 30))
        how = rng.choice(["file", "mmap", "map", "stream", "fd", "stdio", "swap"])
        cmds.append("reload " + how)
        exp.append(("reload", how))
    for i in (range(len(S)) if len(S) < 700 else rng.sample(range(len(S)), 300)):
        cmds.append("rev0 %d" % i)
        exp.append(("rev", i))
    return cmds, exp, S, kind, flags


def judge(c, cmds, exp, S, lines, data):
    idof, keyof = {}, {}
    qs = [x for x in cmds if not x.startswith("key ")]

    def bind(cell, key=None):
        """an id:key pair of a reply; ids and keys are one to one"""
        i, k = cell.split(":")
        i, k = int(i), bytes.fromhex(k)
        if not 0 <= i < len(S):
            return "id %d of %r is not below the number of keys %d" % (i, k, len(S)), k
        if idof.setdefault(k, i) != i:
            return "key %r has the ids %d and %d" % (k, idof[k], i), k
        if keyof.setdefault(i, k) != k:
            return "id %d has the keys %r and %r" % (i, keyof[i], k), k
        return None, k
    inS = set(S)
    order = None
    sizes = set()

    def prefixes(q):
        return [q[:i] for i in range(len(q) + 1) if q[:i] in inS]

    def extensions(q):
        a = bisect.bisect_left(S, q)
        out = []
        while a < len(S) and S[a].startswith(q):
            out.append(S[a])
            a += 1
        return out
    for cmd, e, line in zip(qs, exp, lines):
        bad = None
        op = e[0]
        c.count("calls " + op)
        if op == "build":
            if line.startswith("X"):
                bad = "failed: " + line
            else:
                head, ids = line.split(" ;")
                h = head.split(" ")
                if h[:4] != [str(len(S)), str(len(S)), "1" if not S else "0", str(len(e[1]))]:
                    bad = "reports %s for %d keys, %d distinct" % (head, len(e[1]), len(S))
                order = int(h[6])
                if not bad and e[2] & 0xF0000 and order != e[2] & 0xF0000:
                    bad = "node order %#x asked for, %#x built" % (e[2] & 0xF0000, order)
                for cell, k in zip(ids.split(), e[1]):
                    w, kk = bind(cell)
                    bad = bad or w or (None if kk == k else "key set holds %r instead of %r" % (kk, k))
                if not bad and set(keyof) != set(range(len(S))):
                    bad = "ids of the keys are not dense"
        elif op == "reload":
            t = line.split(" ")
            if line.startswith("X") or t[0] != str(len(S)) or t[1] != str(len(S)):
                bad = "reloaded trie: %s" % line
            elif e[1] != "swap":
                sizes.add((t[2], t[4]))
                if len(sizes) > 1 or t[2] != t[3]:
                    bad = "size of the stored trie changed: %s" % sorted(sizes)
        elif op == "rev":
            if e[1] >= len(S):
                if not line.startswith("X"):
                    bad = "reverse lookup of an absent id gave %s" % line
            elif line.startswith("X"):
                bad = "reverse lookup failed: " + line
            else:
                w, k = bind(line)
                bad = w or (None if int(line.split(":")[0]) == e[1] and k in inS else "gave %s" % line)
        elif op == "look":
            if e[1] in inS:
                if ":" not in line:
                    bad = "key %r not found: %s" % (e[1], line)
                else:
                    w, k = bind(line)
                    bad = w or (None if k == e[1] else "gave %r" % k)
            elif line != "-":
                bad = "absent key %r found: %s" % (e[1], line)
        elif op in ("cps", "pred"):
            if line.startswith("X"):
                bad = "failed: " + line
            else:
                got = []
                for cell in line.split():
                    w, k = bind(cell)
                    bad = bad or w
                    got.append(k)
                want = prefixes(e[1]) if op == "cps" else extensions(e[1])
                if not bad:
                    if op == "cps" or order == 0x10000:
                        if got != want[:e[2]]:
                            bad = "of %r gave %s instead of %s" % (e[1], got[:8], want[:8])
                    elif len(got) != min(len(want), e[2]) or len(set(got)) != len(got) or not set(got) <= set(want):
                        bad = "of %r gave %d keys, %d should be found: %s" % (e[1], len(got), min(len(want), e[2]), sorted(set(got) ^ set(want))[:5])
        elif op == "next":
            want = prefixes(e[2]) if e[1] == "cps" else extensions(e[2])
            if e[3] < len(want):
                if ":" not in line:
                    bad = "continued search of %r ended after %d of %d keys" % (e[2], e[3], len(want))
                else:
                    w, k = bind(line)
                    bad = w or (None if k in want and (order != 0x10000 and e[1] == "pred" or want[e[3]] == k) else "continued search of %r gave %r" % (e[2], k))
            elif e[3] == len(want) and line != "-":
                bad = "continued search of %r gave %s after all %d keys" % (e[2], line, len(want))
        if bad:
            c.violation("trie-" + op, "%s: %s" % (cmd[:120], bad), data)
            return False
    return True


def one(c, i, big):
    rng = c.sub("%s%d" % ("b" if big else "t", i))
    cmds, exp, S, kind, flags = script(rng, big)
    inp = "\n".join(cmds) + "\n"
    r = common.run([c.exe["trieops"], c.path("x%d%d" % (big, i))], inp, timeout=300)
    data = {"script": inp if len(inp) < 400000 else inp[:2000]}
    if not c.expect(r.rc == 0, "died", "driver (%s, %#x): %s" % (kind, flags, r.why()), data):
        return
    lines = r.out.split("\n")[:-1]
    if not c.expect(len(lines) == len(exp), "lines", "%d replies to %d calls" % (len(lines), len(exp)), data):
        return
    if judge(c, cmds, exp, S, lines, data):
        c.case(inp, len(S) > 0, {"kind": kind, "flags": hex(flags), "keys": len(S)})
        c.count("keys stored", len(S))


def body(c):
    c.rule = "one trie (key set and build options) with its queries and reloads; counts when it has keys; identity = the script"
    c.assumptions = ["the order of predictive search is prescribed only for label order; common prefixes come shortest first"]
    c.exe = common.build("asan", drivers=["trieops"])
    common.pmap(lambda i: one(c, i, False), range(c.n(1500, 20000)), 8)
    common.pmap(lambda i: one(c, i, True), range(c.n(16, 160)), 8)


common.main("C20", body)
