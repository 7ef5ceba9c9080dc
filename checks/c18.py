#!/usr/bin/env python3
"""C18: histories of sparse vector and map operations against dense dictionaries."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common

NAMES = ["p", "lm", "w", "unk", "f=g", "a\\b", "q\"x", "犬", "x0", "0", "=", "parse", "egfp", "long" * 10] + ["f%d" % i for i in range(30)]
OPS = ["vnew", "vnew", "vparse", "vadd", "vadd", "v+=", "v-=", "v+", "v-", "v*", "vdot", "veq", "vprint", "vjson", "vmap",
       "mnew", "mparse", "m+=", "m-=", "m+", "m-", "m*", "mdot", "meq", "mprint", "mjson", "mnorm", "xdot", "x+=", "x-=", "x+", "x-"]


def val(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 8.0]) if rng.random() < 0.4 else rng.randint(-40, 40) / 8.0


def num(x):
    return repr(float(x))


def clean(d):
    return {k: v for k, v in d.items() if v != 0}


def comb(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + s * v
    return r


def dot(a, b):
    return sum(v * b.get(k, 0.0) for k, v in a.items())


def script(rng, nops):
    """-> list of (command line, (kind of expectation, value)); the model: dictionaries, absent = 0"""
    names = rng.sample(NAMES, rng.choice([2, 3, 5, 10, 30]))
    ids = list(names)
    rng.shuffle(ids)
    V = [dict() for _ in range(8)]
    M = [dict() for _ in range(8)]
    out = [("id\t" + "\t".join(ids), None)]

    def pairs(uniq):
        ks = [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20]))]
        if uniq:
            ks = list(dict.fromkeys(ks))
        return [(k, val(rng)) for k in ks]
    for _ in range(nops):
        a, b, c = rng.randrange(4), rng.randrange(4), rng.randrange(4)
        k = rng.choice(OPS)
        if k in ("vnew", "vparse"):
            p = pairs(False)
            d = {}
            for f, v in p:
                d[f] = d.get(f, 0.0) + v
            V[a] = d
            if k == "vnew":
                out.append(("\t".join(["vnew", str(a)] + [x for f, v in p for x in (f, num(v))]), ("V", dict(d))))
            else:
                out.append(("vparse\t%d\t%s" % (a, rng.choice([" ", "  "]).join("%s=%s" % (f, num(v)) for f, v in p)), ("V", dict(d))))
        elif k == "vadd":
            f, v = rng.choice(names), val(rng)
            V[a] = comb(V[a], {f: v}, 1)
            out.append(("vadd\t%d\t%s\t%s" % (a, f, num(v)), ("V", dict(V[a]))))
        elif k in ("v+=", "v-="):
            V[a] = comb(V[a], V[b], 1 if k == "v+=" else -1)
            out.append(("%s\t%d\t%d" % (k, a, b), ("V", dict(V[a]))))
        elif k in ("v+", "v-"):
            V[a] = comb(V[b], V[c], 1 if k == "v+" else -1)
            out.append(("%s\t%d\t%d\t%d" % (k, a, b, c), ("V", dict(V[a]))))
        elif k in ("v*", "m*"):
            s = rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5])
            R = V if k == "v*" else M
            R[a] = {f: v * s for f, v in R[b].items()}
            if max([abs(x) for x in R[a].values()] or [0]) > 1e6:
                R[a] = {}
                out.append(("%snew\t%d" % (k[0], a), (k[0].upper(), {})))
            else:
                out.append(("%s\t%d\t%d\t%s" % (k, a, b, num(s)), (k[0].upper(), dict(R[a]))))
        elif k in ("vdot", "mdot", "xdot"):
            A = V[a] if k == "vdot" else M[a]
            B = M[b] if k == "mdot" else V[b]
            out.append(("%s\t%d\t%d" % (k, a, b), ("S", dot(A, B))))
        elif k in ("veq", "meq"):
            R = V if k == "veq" else M
            A, B = R[a], R[b]
            keys = set(A) | set(B)
            if any(abs(A.get(x, 0) - B.get(x, 0)) > 1e-3 for x in keys):
                out.append(("%s\t%d\t%d" % (k, a, b), ("E", "01")))
            elif a == b:
                out.append(("%s\t%d\t%d" % (k, a, b), ("E", "10")))
            else:
                # whether stored zeros count as absent is left open
                out.append(("%s\t%d\t%d" % (k, a, b), ("Enz", "10")))
        elif k in ("vprint", "mprint"):
            out.append(("%s\t%d" % (k, a), ("P", dict((V if k[0] == "v" else M)[a]))))
        elif k in ("vjson", "mjson"):
            out.append(("%s\t%d" % (k, a), ("J", dict((V if k[0] == "v" else M)[a]))))
        elif k == "vmap":
            M[a] = dict(V[b])
            out.append(("vmap\t%d\t%d" % (a, b), ("M", dict(M[a]))))
        elif k == "mnew":
            p = pairs(True)
            M[a] = dict(p)
            out.append(("\t".join(["mnew", str(a)] + [x for f, v in p for x in (f, num(v))]), ("M", dict(M[a]))))
        elif k == "mparse":
            p = pairs(rng.random() < 0.9)
            s = " ".join("%s=%s" % (f, num(v)) for f, v in p)
            if len(set(f for f, _ in p)) < len(p):
                out.append(("mparse\t7\t" + s, ("X", None)))
                continue
            M[a] = dict(p)
            out.append(("mparse\t%d\t%s" % (a, s), ("M", dict(M[a]))))
        elif k in ("m+=", "m-=", "x+=", "x-="):
            if k[0] == "m" and a == b:
                continue    # a map that is changed while it is walked over is not a use the code base makes
            M[a] = comb(M[a], M[b] if k[0] == "m" else V[b], 1 if k[1] == "+" else -1)
            out.append(("%s\t%d\t%d" % (k, a, b), ("M", dict(M[a]))))
        elif k in ("m+", "m-", "x+", "x-"):
            M[a] = comb(M[b], M[c] if k[0] == "m" else V[c], 1 if k[1] == "+" else -1)
            out.append(("%s\t%d\t%d\t%d" % (k, a, b, c), ("M", dict(M[a]))))
        elif k == "mnorm":
            t = rng.choice([1.0, 2.0, 0.5])
            tot = sum(abs(v) for v in M[a].values())
            want = dict(M[a]) if tot == 0 else {f: v * t / tot for f, v in M[a].items()}
            out.append(("mnorm\t%d\t%s" % (a, num(t)), ("N", want)))
            M[a] = {}
            out.append(("mnew\t%d" % a, ("M", {})))
    return out


def parse_reg(line):
    h, rest = line.split("\t", 1) if "\t" in line else (line, "")
    t = rest.split("\t") if rest else []
    d, dup = {}, False
    for i in range(0, len(t), 2):
        dup |= t[i] in d
        d[t[i]] = d.get(t[i], 0.0) + float(t[i + 1])
    return d, dup


def near(d, w, rel):
    d, w = clean(d), clean(w)
    return d.keys() == w.keys() and all(common.close(d[f], w[f], rel) for f in w)


def judge(c, cmd, want, line, data):
    op = cmd.split("\t")[0]
    kind, w = want
    bad = None
    if kind in ("V", "M", "N"):
        if not line.startswith(("V ", "M ")):
            bad = "replied %r" % line
        else:
            d, dup = parse_reg(line)
            if dup:
                bad = "holds a feature twice: %r" % line
            elif not (near(d, w, 1e-9) if kind == "N" else clean(d) == clean(w)):
                bad = "is %s, should be %s" % (clean(d), clean(w))
    elif kind == "S":
        if line[:2] != "S " or float(line[2:]) != w:
            bad = "is %s, should be %r" % (line, w)
    elif kind == "E":
        if line != "E " + w:
            bad = "compares as %s" % line
    elif kind == "Enz":
        if line not in ("E 10", "E 01"):
            bad = "compares as %s" % line
    elif kind == "P":
        d = {}
        for tok in line[2:].split():
            f, v = tok.rsplit("=", 1)
            if f in d:
                bad = "prints %s twice" % f
            d[f] = float(v)
        if not bad and not near(d, w, 1e-5):
            bad = "prints %s, should be %s" % (line, clean(w))
    elif kind == "J":
        try:
            d = json.loads(line[2:])
            if not near(d, w, 1e-5):
                bad = "prints %s, should be %s" % (line, clean(w))
        except ValueError:
            bad = "prints unreadable JSON %s" % line
    elif kind == "X":
        if line != "X":
            bad = "accepted repeated features: %s" % line
    c.count("operations " + op)
    if bad:
        c.violation("op-" + op, "%s: %s" % (cmd[:200], bad), data)
        return False
    return True


def one(c, i):
    rng = c.sub("s%d" % i)
    sc = script(rng, rng.choice([5, 20, 60, 200, 400]))
    inp = "".join(cmd + "\n" for cmd, _ in sc)
    r = common.run([c.exe["vecops"]], inp, timeout=60)
    data = {"script": inp}
    if not c.expect(r.rc == 0, "died", "driver " + r.why(), data):
        return
    lines = r.out.split("\n")
    if not c.expect(len(lines) == len(sc) + 1, "lines", "%d replies to %d commands" % (len(lines) - 1, len(sc)), data):
        return
    for (cmd, want), line in zip(sc, lines):
        if want is not None and not judge(c, cmd, want, line, data):
            return
    c.case(inp, True, {"script": [x for x, _ in sc[:8]]})


def body(c):
    c.rule = "one history of operations; identity = the whole script"
    c.assumptions = ["values are multiples of 1/8 so that every sum is exact; printed values are compared to 5 digits",
                     "whether stored zeros make vectors unequal is not judged"]
    c.exe = common.build("asan", drivers=["vecops"])
    common.pmap(lambda i: one(c, i), range(c.n(3000, 40000)), 8)


common.main("C18", body)
