"""C23: hostile bytes in every input of every command-line tool, run with AddressSanitizer and UndefinedBehaviorSanitizer
(a sample also under memcheck, for uninitialised memory).  Verdict: the tool either ends normally or with a diagnosed error."""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import common, mt, hiero, arpa
from common import run

TIMEOUT, CONFIRM = 25, 100
# a request for more memory than is allowed here is answered by bad_alloc in the real tools
LIMIT = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                         "max_allocation_size_mb=1500:hard_rss_limit_mb=2600:malloc_context_size=12"}
OOM = re.compile(r"AddressSanitizer: (out of memory|allocation-size-too-big|requested allocation size)|hard rss limit exhausted|std::bad_alloc|calloc-overflow|std::length_error")

INTS = ["0", "-1", "1", "-2", "2", "5", "99", "256", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "123456789012345678901234567890", "00", "+1", "0x10", "1e3", "1.5"]
REALS = ["nan", "-nan", "inf", "-inf", "1e999", "-1e999", "1e-999", "0", "-0", "1e308", "-1e308", "1e30", "-1e30", "1e-30", ".", "-", "1e", "0x1p3", "12abc", ""]
TOKS = {
    "tree": ["(", ")", "((", "))", "()", "( )", "(A )", "(A)", "(S", "X)", "(A (B", "-LRB-", "-", "a-b", "|", "|||", "&", "<", "\"", "\\", "x0"],
    "egret": ["=>", "|||", "||||", "[0,0]", "A[0,0]", "A[0,99999]", "A[-1,0]", "A[2,1]", "A[0,2147483647]", "A[99999999999,0]", "[", "]", "A[0]", "A[,]", "sentence",
              "sentence 1 :", "1", "S[0,1]", "w"],
    "rtree": ["(", ")", "\"", "\"\"", "\"a\"", "A", "\"(\"", "A (", "( )", "A ( )"],
    "json": ["{", "}", "[", "]", ",", ":", "\"", "null", "true", "[]", "{}", "\"\"", "\"id\"", "\"head\"", "\"tails\"", "\"span\"", "\"trg\"", "\"words\"", "\"syms\"",
             "\"nodes\"", "\"edges\"", "\"features\"", "\"frontier\"", "\"trg_span\"", "\"sym\"", "\"label\"", "\"score\"", "\\u0000", "\"\\ud800\""],
    "align": ["-", "--", "0-", "-0", "0-0", "0--1", "0-1-2", "0-99", "99-0", "0-100000", "a-b", "1-0", "0:0", "0-2147483647", "2147483647-0", "0-99999999999", "."],
    "rules": ["|||", " ||| ", "||||", "|||||", "|COL|", "||", "@", "@ @", "x", "x0", "x1", "x2", "x9", "x0:", "x0:X", "x1:X", "x99:X", "x0X", "x2147483647", "x2147483648", "x99999999999",
              "x0:x0", "x-1", "X", "S", "\"\"", "\"", "\"a\"", "\"a", "a\"", "(", ")", "( )", "X (", "p=1", "p=", "=1", "=", "p", "p=nan", "0-0", "0-9", "@ X", "@ S", "N", "NP ( x0:N )"],
    "nbest": ["|||", " ||| ", "||||", "-1", "0", "99", "p=1", "p=", "=1", "=", "p", "|COL|", "a", "p=nan", "p=inf", "p=1 p=2"],
    "weights": ["p=1", "p=", "=1", "=", "p", "p=nan", "p=inf", "p 1", "p=1=2", "p=1 p=2", "#"],
    "measure": ["bleu", "nist", "ribes", "ter", "wer", "interp", "ainterp", "zeroone", "bleu:", ":", "=", ",", "|", "order=", "order=0", "order=-1", "order=100", "order=2147483647", "smooth=nan",
                "prec=", "prec=0", "mean=", "scope=", "factor=", "factor=1", "factor=-1", "factor=99", "beta=0", "beta=-1", "alpha=-1", "alpha=inf", "inverse=", "reverse=", "1", "0", "A", "B", "(", ")", "+", "*", "/", "-", "^", "0.5"],
    "config": ["[", "]", "[]", "[nbest]", "[tm_file]", "true", "false", "none", "|", "#", "[weight_vals]", "x=1"],
    "arpa": ["\\data\\", "\\1-grams:", "\\2-grams:", "\\end\\", "ngram 1=3", "ngram 2=3", "ngram 3=1", "ngram", "\t", "-1.0", "-99", "1.0", "<s>", "</s>", "<unk>", "a"],
    "text": ["|", "|||", "|COL|", "-", "\"", "'", "''", "``", "...", "(", ")", "$", "£", "́", "Ⱥ", "ß", "İ", "犬", ".", "。", "\u2028", "a'b", "can't", "&amp;", "<a>", "http://x.y"],
    "casemodel": ["|", "||", "(", "a b", "A a", "a/b"],
    "regex": ["(", ")", "[", "]", "*", "+", "(-|\\)", ".*", "^", "$", "(a*)*", "|", "\\", "\\b", "(?=a)", "{", "}", "{1}", ""],
}
TOKS["any"] = sum((TOKS[k] for k in ("tree", "egret", "rules", "align", "json")), [])
SYM = ["NP", "N", "NP-SBJ", "VP", "V", "PP", "X"]
VOC = ["a", "b", "c", "the", "dog", "x0", "犬", "0", "can't", "U.S.A.", "well-known"]
TRG = ["A", "B", "C", "la", "42", "犬"]
FEATS = ["p", "q", "lfreq", "w"]


def mutate_bytes(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        n = len(b)
        k = r.randrange(8)
        p = r.randrange(n + 1)
        if k == 0 and n: b[min(p, n - 1)] = r.choice([0, 9, 10, 13, 32, 34, 40, 41, 45, 48, 57, 61, 64, 91, 93, 92, 124, 127, 128, 192, 237, 255, r.randrange(256)])
        elif k == 1: b[p:p] = bytes([r.choice([0, 9, 10, 13, 32, 34, 40, 41, 45, 61, 124, 192, 255, r.randrange(256)])])
        elif k == 2: del b[p:p + r.choice([1, 1, 2, 4, 16, 200])]
        elif k == 3: b[p:p] = b[p:p + r.choice([1, 4, 16, 64])] * r.choice([1, 2, 5])
        elif k == 4: del b[p:]
        elif k == 5: b[p:p] = bytes([r.choice([32, 40, 41, 97, 10, 124])]) * r.choice([2, 30, 300])
        elif k == 6 and n: b[min(p, n - 1)] ^= 1 << r.randrange(8)
        elif k == 7: b = bytearray(bytes(b).replace(b"\n", b"\r\n"))
    return bytes(b)


def mutate_tokens(r, text, kind):
    toks = re.split(r"(\s+)", text)
    dic = TOKS.get(kind, []) or TOKS["any"]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        w = [i for i in range(0, len(toks), 2) if toks[i]]
        if not w:
            return text + r.choice(dic)
        i = r.choice(w)
        k = r.randrange(8)
        if k == 0: toks[i] = ""
        elif k == 1: toks[i] = r.choice(dic)
        elif k == 2: toks[i] = toks[i] + " " + r.choice(dic)
        elif k == 3:
            j = r.choice(w); toks[i], toks[j] = toks[j], toks[i]
        elif k == 4: toks[i] = toks[i] + " " + toks[i]
        elif k == 5: toks[i] = r.choice(TOKS["any"] + INTS)
        elif k == 6: toks[i] = toks[i] + r.choice(dic)
        elif k == 7: toks[i] = r.choice(["y" * 5000, "(" * 400, "é" * 300, "a|b", "\u00a0", "0" * 400])
    return "".join(toks)


def mutate_numbers(r, text):
    ms = list(re.finditer(r"-?\d+(\.\d+)?(e-?\d+)?", text))
    if not ms:
        return text
    for m in sorted(r.sample(ms, min(len(ms), r.choice([1, 1, 1, 2]))), key=lambda m: -m.start()):
        v = r.choice(REALS if m.group(1) and r.random() < .7 else INTS)
        if r.random() < .2:
            v = str(int(m.group(0)) + r.choice([-1, 1, 2])) if re.fullmatch(r"-?\d{1,300}", m.group(0)) else v
        text = text[:m.start()] + v + text[m.end():]
    return text


def mutate_lines(r, text, other):
    ls = text.split("\n")
    k = r.randrange(9)
    i = r.randrange(len(ls))
    if k == 0: del ls[i]
    elif k == 1: ls[i] = ""
    elif k == 2: ls.insert(i, "")
    elif k == 3: ls.insert(i, ls[i])
    elif k == 4:
        j = r.randrange(len(ls)); ls[i], ls[j] = ls[j], ls[i]
    elif k == 5: return text.rstrip("\n")
    elif k == 6: ls[i] = r.choice([" ", "\t", "  \t ", "|||", " ||| ", "()", "0"])
    elif k == 7 and other: ls[i] = r.choice(other.split("\n"))
    elif k == 8: return r.choice(["", "\n", "\n\n", " ", "\0", "\xff\xfe", "\ufeff" + text])
    return "\n".join(ls)


def mutate_columns(r, text):
    """drop, repeat, empty or exchange a column or an item of a line"""
    ls = text.split("\n")
    sep = r.choice([" ||| ", " ||| ", " |COL| ", "|", "\t", ",", "=", "-", ":"])
    at = [i for i, l in enumerate(ls) if sep in l]
    if not at:
        return None
    i = r.choice(at)
    cs = ls[i].split(sep)
    j = r.choice([r.randrange(len(cs)), len(cs) - 1])
    k = r.randrange(5)
    if k <= 1: del cs[j]
    elif k == 2: cs.insert(j, cs[j])
    elif k == 3: cs[j] = ""
    else:
        h = r.randrange(len(cs)); cs[j], cs[h] = cs[h], cs[j]
    ls[i] = sep.join(cs)
    return "\n".join(ls)


def mutate(r, text, kind, others):
    if r.random() < .12:
        t = mutate_columns(r, text)
        if t is not None:
            return t
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        if k < .25 and kind not in ("config",): text = mutate_bytes(r, text.encode("utf8", "surrogateescape")).decode("utf8", "surrogateescape")
        elif k < .60: text = mutate_tokens(r, text, kind)
        elif k < .80: text = mutate_numbers(r, text)
        else: text = mutate_lines(r, text, r.choice(others) if others else "")
    return text


# ---------------------------------------------------------------- scenarios: files {name: [kind, text]}, stdin name, arguments

def words(r, n=None):
    return [r.choice(VOC) for _ in range(n or r.choice([1, 2, 3, 5, 8]))]


class S(object):
    def __init__(self, tool):
        self.tool, self.files, self.inp, self.args = tool, {}, None, []

    def add(self, name, kind, text):
        self.files[name] = [kind, text]
        return name


def fconf(kw):
    return "".join("[%s]\n%s\n\n" % (k, "\n".join("%s=%s" % z for z in v.items()) if isinstance(v, dict) else v) for k, v in kw.items())


def lm_text(r):
    return arpa.gen(r, r.sample(TRG, 4), r.choice([2, 2, 3]), unk=True).text()


def sc_travatar(r, mode):
    s = S("travatar")
    nf = r.choice([1, 1, 2])
    kw = dict(weight_vals={f: round(r.uniform(-2, 2), 2) for f in FEATS + ["unk", "parse", "glue", "lm"]}, trg_factors=nf, nbest=r.choice([1, 3, 10]),
              nbest_out="nb.out", nbest_tree=r.choice(["true", "false"]), trace_out="tr.out", forest_out="f.out", debug=r.choice([0, 1]), threads=1,
              binarize=r.choice(["none", "left", "right", "leftrp", "rightrp", "cky"]), nbest_uniq=r.choice(["false", "true"]),
              all_unk=r.choice(["true", "false"]), search=r.choice(["cp", "inc"]), buffer="false")
    n = r.choice([1, 2, 4])
    sents = [words(r) for _ in range(n)]
    if mode in ("penn", "egret"):
        roots = [(w, mt.gen_tree(r, w, SYM) if mode == "penn" else mt.gen_forest(r, w, SYM, 3)) for w in sents]
        rules = mt.gen_rules(r, [x for _, x in roots], r.choice([5, 20]), TRG, FEATS, nf, labels=["A", "NP"] if r.random() < .2 else None)
        s.add("in", "tree" if mode == "penn" else "egret", "".join(mt.penn(x) + "\n" for _, x in roots) if mode == "penn" else "".join(mt.egret(x, w, j + 1) for j, (w, x) in enumerate(roots)))
        kw.update(in_format=mode, tm_storage=r.choice(["hash", "marisa"]), consider_trg=r.choice(["false", "false", "true"]))
    else:
        st = r.choice(["fsm", "cfg"]) if mode == "word" else mode
        lb = ["X", "S"]
        rules = [hiero.gen_rule(r, sents, lb, lb[:-1], TRG, FEATS, nf, 2, None, kidlabels=lb[:-1]) for _ in range(r.choice([4, 12]))] + hiero.glue("X", "S", nf)
        s.add("in", "text", "".join(" ".join(w) + "\n" for w in sents))
        kw.update(in_format="word", tm_storage=st, hiero_span_limit=r.choice(["20", "5"]))
        if st == "cfg":
            kw["search"] = "cp"
        kw["delete_unknown"] = r.choice(["false", "false", "true"])
    s.add("rt", "rules", "".join(x.line() + "\n" for x in rules))
    kw["tm_file"] = "rt"
    if r.random() < .35:
        s.add("lm", "arpa", lm_text(r))
        kw["lm_file"] = "lm"
        kw["pop_limit"] = r.choice([1, 5, 50])
    if r.random() < .15 and mode != "cfg":
        for k in ("nbest_tree",): kw.pop(k)
        s.add("ref", "text", "".join(" ".join(r.choice(TRG) for _ in w) + "\n" for w in sents))
        kw.update(tune_update="perceptron", tune_ref_files="ref", tune_weight_out="w.out", tune_loss=r.choice(["bleu:smooth=1", "ribes", "wer:reverse=true", "zeroone"]))
        if r.random() < .5:
            kw["tune_weight_ranges"] = "0|1|p"
    s.add("conf", "config", fconf(kw))
    s.args = ["-config_file", "conf"]
    s.inp = "in"
    return s


def trees(r, fmt, n=3):
    out, ws = "", []
    for j in range(n):
        w = words(r)
        ws.append(w)
        if fmt == "penn": out += mt.penn(mt.gen_tree(r, w, SYM)) + "\n"
        elif fmt == "egret": out += mt.egret(mt.gen_forest(r, w, SYM, 3), w, j + 1)
        elif fmt == "rule":
            def go(t):
                return '"%s"' % t.sym if t.word else "%s ( %s )" % (t.sym, " ".join(go(x) for x in t.edges[0].tails))
            out += go(mt.gen_tree(r, w, SYM)) + "\n"
        elif fmt == "json":
            ns, es = [], []
            def jn(t):
                i = len(ns)
                ns.append('{"id": %d, "sym": "%s", "span": [%d, %d]}' % (i, t.sym, t.span[0], t.span[1]) if r.random() < .8 else
                          '{"id": %d, "sym": "%s", "span": [%d, %d], "trg_span": [%d], "frontier": "F"}' % (i, t.sym, t.span[0], t.span[1], t.span[0]))
                for e in t.edges:
                    ks = [jn(x) for x in e.tails]
                    es.append((i, ks))
                return i
            jn(mt.gen_tree(r, w, SYM))
            out += '{"nodes": [%s], "edges": [%s], "words": [%s]}\n' % (", ".join(ns), ", ".join(
                '{"id": %d, "head": %d, "tails": [%s], "features": {"p": 0.5}, "trg": [{"words": ["A"%s], "label": "X", "syms": ["Y"]}], "score": %s}' % (
                    k, h, ", ".join(map(str, t)), "".join(", %d" % (-1 - q) for q in range(len(t))), r.choice(["0", "-0.5"])) for k, (h, t) in enumerate(es)), ", ".join('"%s"' % x for x in w))
        else: out += " ".join(w) + "\n"
    return out, ws


KIND = {"penn": "tree", "egret": "egret", "json": "json", "rule": "rtree", "word": "text"}


def sc_convert(r, fmt):
    s = S("tree-converter")
    t, _ = trees(r, fmt, r.choice([1, 3]))
    s.add("in", KIND[fmt], t)
    s.args = ["-input_format", fmt, "-output_format", r.choice(["penn", "json", "egret", "mosesxml", "rule", "word"])]
    if r.random() < .5:
        s.args += ["-binarize", r.choice(["none", "left", "right", "leftrp", "rightrp", "cky"])]
    if r.random() < .25:
        s.args += ["-flatten", "true"]
    if r.random() < .25:
        s.args += ["-split", r.choice(["[-]", "(-|\\.)", "a"])]
    elif r.random() < .15:
        s.add("lm", "arpa", arpa.gen(r, ["a", "can", "well", "known"], 2).text())
        s.args += ["-compoundsplit", "lm", "-compoundsplit_minchar", r.choice(["1", "3"]), "-compoundsplit_filler", r.choice(["-", "s:es", ":"])]
    if r.random() < .3:
        z = r.choice(["low", "title", "true"])
        if z == "true":
            s.add("tc", "casemodel", "a\nDog\nCAN't (1/2) can't (3/4)\n" if r.random() < .5 else "The (3/4) the (1/4)\nDOG (1/1)\n")
            z = "true:model=tc"
        s.args += ["-case", z]
    if r.random() < .5:
        s.inp = "in"
    else:
        s.args.append("in")
    return s


def alignments(r, ws, vs):
    return "".join(" ".join(sorted({"%d-%d" % (r.randrange(len(a)), r.randrange(len(b))) for _ in range(r.choice([0, 1, len(a), len(a) + 2]))})) + "\n" for a, b in zip(ws, vs))


def sc_forest(r, fmt):
    s = S("forest-extractor")
    src, ws = trees(r, fmt)
    ofmt = r.choice(["word", "word", "penn"])
    if ofmt == "word":
        vs = [[r.choice(TRG) for _ in range(r.choice([1, 2, 4, 6]))] for _ in ws]
        trg = "".join(" ".join(v) + "\n" for v in vs)
    else:
        trg, vs = trees(r, ofmt)
    s.add("src", KIND[fmt], src); s.add("trg", KIND[ofmt], trg); s.add("al", "align", alignments(r, ws, vs))
    s.args = ["-input_format", fmt, "-output_format", ofmt, "-binarize", r.choice(["none", "left", "right", "cky", "rightrp"]), "-compose", r.choice(["1", "3", "5"]),
              "-attach", r.choice(["top", "none", "exhaustive"]), "-attach_len", r.choice(["1", "2"]), "-normalize_probs", r.choice(["true", "false"])]
    if r.random() < .3: s.args += ["-src_lex_len", r.choice(["0", "2"])]
    if r.random() < .2: s.args += ["-count_rules", "true"]
    s.args += ["src", "trg", "al"]
    return s


def sc_hiero(r, _):
    s = S("hiero-extractor")
    n = r.choice([1, 3])
    ws = [words(r) for _ in range(n)]
    vs = [[r.choice(TRG) for _ in range(r.choice([1, 2, 4, 6]))] for _ in ws]
    s.add("src", "text", "".join(" ".join(v) + "\n" for v in ws)); s.add("trg", "text", "".join(" ".join(v) + "\n" for v in vs)); s.add("al", "align", alignments(r, ws, vs))
    s.args = ["-max_initial_phrase", r.choice(["3", "10"]), "-max_terminals", r.choice(["2", "5"]), "src", "trg", "al"]
    return s


MEAS = ["bleu", "bleu:order=3,smooth=1,prec=0.5,mean=arith", "bleu:scope=sentence,brev=false", "bleu:inverse=true", "ribes", "ribes:alpha=0.1,beta=0.5", "nist:order=3", "ter", "wer:reverse=true",
        "zeroone", "interp:0.5|bleu|0.5|ribes", "ainterp:A|bleu|B|ribes|A*B", "ainterp:A|bleu:smooth=1|B|wer|(A+2*B)/3", "bleu:factor=1", "wer:factor=1"]


def factored(r, k):
    return " |COL| ".join(" ".join(r.choice(TRG) for _ in range(r.choice([0, 1, 3, 5]))) for _ in range(k))


def sc_eval(r, _):
    s = S("mt-evaluator")
    n = r.choice([1, 2, 4])
    k = r.choice([1, 1, 2])
    s.add("ref", "text", "".join(factored(r, k) + "\n" for _ in range(n)))
    s.add("h1", "text", "".join(factored(r, k) + "\n" for _ in range(n)))
    s.add("h2", "text", "".join(factored(r, k) + "\n" for _ in range(n)))
    s.add("@eval", "measure", " ".join(r.sample([m for m in MEAS if k > 1 or "factor" not in m], r.choice([1, 2, 3]))))
    s.args = ["-ref", "ref", "-eval", "@eval"]
    if r.random() < .3: s.args += ["-sent", "true"]
    if r.random() < .3: s.args += ["-bootstrap", r.choice(["1", "5"])]
    s.args += ["h1"] + (["h2"] if r.random() < .6 else [])
    return s


def sc_segment(r, _):
    s = S("mt-segmenter")
    s.add("ref", "text", "".join(" ".join(r.choice(TRG) for _ in range(r.choice([1, 3, 5]))) + "\n" for _ in range(r.choice([1, 3]))))
    s.add("h", "text", "".join(" ".join(r.choice(TRG) for _ in range(r.choice([1, 5]))) + "\n" for _ in range(r.choice([1, 3]))))
    s.add("@eval", "measure", r.choice([m for m in MEAS if "nist" not in m and "factor" not in m]))
    s.args = ["-ref", "ref", "-eval", "@eval", "-slack", r.choice(["1.0", "2.0"]), "h"]
    return s


def nbest_text(r, n, k=1):
    return "".join("%d ||| %s ||| %s ||| %s\n" % (i, factored(r, k), round(r.uniform(-3, 3), 2), " ".join("%s=%s" % (f, round(r.uniform(-2, 2), 2)) for f in r.sample(FEATS, r.randint(0, 3))))
                   for i in range(n) for _ in range(r.choice([1, 2, 4])))


def weights_text(r):
    return "".join("%s=%s\n" % (f, round(r.uniform(-2, 2), 2)) for f in r.sample(FEATS, r.randint(1, 4)))


def sc_rescore(r, _):
    s = S("rescorer")
    s.add("nb", "nbest", nbest_text(r, r.choice([1, 3])))
    if r.random() < .5:
        s.add("w", "weights", weights_text(r)); s.args += ["-weight_in", "w"]
    if r.random() < .5:
        s.add("@eval", "measure", r.choice(MEAS[:-2])); s.args += ["-mbr_eval", "@eval", "-mbr_scale", r.choice(["1", "0.3"]), "-mbr_hyp_cnt", r.choice(["0", "2"])]
    if r.random() < .6:
        s.args += ["-nbest", "nb"]
    else:
        s.inp = "nb"
    s.args += ["-nbest_out", "o"]
    return s


def sc_tune(r, kind):
    s = S("batch-tune")
    n = r.choice([1, 2, 3])
    k = r.choice([1, 1, 1, 2])
    s.add("ref", "text", "".join(factored(r, k) + "\n" for _ in range(n)))
    alg = r.choice(["mert", "greedy-mert", "lbfgs", "online", "onlinepro"])
    if kind == "forest":
        s.add("fo", "json", rule_forests(r, n))
        s.args += ["-forest", "fo"]
        alg = "mert"
    else:
        s.add("nb", "nbest", nbest_text(r, n, k))
        s.args += ["-nbest", "nb"]
        if k == 1 and r.random() < .2:
            return tune_stats(r, s, n)
    s.add("@eval", "measure", r.choice([m for m in MEAS if "nist" not in m and (k > 1 or "factor" not in m) and (alg != "lbfgs" or "inverse" not in m)]))
    s.args += ["-algorithm", alg, "-eval", "@eval", "-trg_factors", str(k), "-restarts", r.choice(["0", "1"])]
    if r.random() < .7:
        s.add("w", "weights", weights_text(r)); s.args += ["-weight_in", "w"]
    if r.random() < .4:
        s.add("@rng", "weights", r.choice(["0|1|p", "0|1", "0|2|w 0|1", "0|1|p 0|1|q"])); s.args += ["-weight_ranges", "@rng"]
    if alg == "mert" and kind == "nbest" and r.random() < .3:
        s.args += ["-mert_directions", r.choice(["rand=2", "xeval=0.1:10:10"])]
    if r.random() < .3: s.args += ["-l1", "0.1"]
    if alg == "lbfgs" and r.random() < .3: s.args += ["-ent", "0.1"]
    if alg.startswith("online"): s.args += ["-update", r.choice(["perceptron", "adagrad", "avgperceptron"]), "-rate", r.choice(["0.5", "1"])]
    s.args += ["-debug", "0", "ref"]
    return s


def rule_forests(r, n):
    """forests of translation rules, as the decoder writes them"""
    out = ""
    for _ in range(n):
        w = words(r)
        ns, es = [], []
        def go(t):
            i = len(ns)
            ns.append('{"id": %d, "sym": "%s", "span": [%d, %d]}' % (i, t.sym, t.span[0], t.span[1]))
            for e in t.edges:
                ks = [go(x) for x in e.tails if not x.word]
                for _ in range(r.choice([1, 1, 2])):
                    es.append((i, ks))
            return i
        go(mt.gen_tree(r, w, SYM))
        out += '{"nodes": [%s], "edges": [%s], "words": [%s]}\n' % (", ".join(ns), ", ".join(
            '{"id": %d, "head": %d, "tails": [%s], "features": {"%s": %s}, "trg": [{"words": [%s]}], "score": 0}' % (
                k, h, ", ".join(map(str, t)), r.choice(FEATS), round(r.uniform(-2, 2), 2),
                ", ".join(['"%s"' % r.choice(TRG)] * r.choice([0, 1]) + [str(-1 - q) for q in r.sample(range(len(t)), len(t))] + ['"%s"' % r.choice(TRG)] * (not t)))
            for k, (h, t) in enumerate(es)), ", ".join('"%s"' % x for x in w))
    return out


def tune_stats(r, s, n):
    """statistics of hypotheses, instead of the hypotheses"""
    nb = s.files["nb"][1].split("\n")[:-1]
    s.add("st", "stats", "".join("%s\n" % " ".join(str(r.randrange(5)) for _ in range(9)) if r.random() < .9 else "1\n" for _ in nb))
    s.add("@eval", "measure", r.choice(["bleu", "bleu:smooth=1", "ter", "ribes"]))
    s.args += ["-stat_in", "st", "-eval", "@eval", "-restarts", "0", "-debug", "0", "ref"]
    return s


def sc_token(r, _):
    s = S("tokenizer")
    s.add("in", "text", "".join(" ".join(r.choice(TOKS["text"] + VOC) for _ in range(r.choice([1, 5, 20]))) + "\n" for _ in range(3)))
    s.inp = "in"
    s.args = ["-type", "penn"]
    return s


def sc_caser(r, _):
    s = S("train-caser")
    s.add("in", "text", "".join(" ".join(r.choice(TOKS["text"] + VOC) for _ in range(r.choice([1, 5, 20]))) + "\n" for _ in range(3)))
    s.inp = "in"
    return s


SC = ([(sc_travatar, m, 6) for m in ("penn", "egret", "word")] + [(sc_convert, f, 4) for f in ("penn", "egret", "json", "rule", "word")] +
      [(sc_forest, f, 3) for f in ("penn", "egret", "json")] + [(sc_hiero, "", 4), (sc_eval, "", 5), (sc_segment, "", 2), (sc_rescore, "", 5),
      (sc_tune, "nbest", 5), (sc_tune, "forest", 4), (sc_token, "", 2), (sc_caser, "", 2)])
TOOLS = ["travatar", "tree-converter", "forest-extractor", "hiero-extractor", "mt-evaluator", "mt-segmenter", "rescorer", "batch-tune", "tokenizer", "train-caser"]
# values of the configuration that ask for work in proportion to them are left alone
HEAVY = re.compile(r"\[(threads|nbest|pop_limit|chart_limit|debug)\]\n[^\n]*\n")


def execute(c, s, d, exe, timeout, env, pre=()):
    os.makedirs(d)
    try:
        for n, (k, t) in s.files.items():
            if n[0] != "@":
                with open(os.path.join(d, n), "wb") as f:
                    f.write(t.encode("utf8", "surrogateescape"))
        args = []
        for a in s.args:
            if a[0] == "@":
                a = s.files[a][1].replace("\0", "").replace("\n", " ")
                a = a.encode("utf8", "surrogateescape")
                a = a or b" "
            args.append(a)
        return run(list(pre) + [exe] + args, s.files[s.inp][1] if s.inp else None, timeout=timeout, env=env, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(c, s, p, seed, what, data, i, exe, env, pre=()):
    """True when the outcome is one of the permitted ones"""
    if p.timeout:
        c.count("slow")
        p = execute(c, s, c.path("again%d" % i), exe, CONFIRM, env, pre)
        if p.timeout:
            c.violation("hang:%s:%s" % (s.tool, what), "%s did not end within %d s" % (s.tool, CONFIRM), data)
            return False
    if OOM.search(p.err):
        c.count("asked for too much memory")
        return True
    if p.san:
        kind = re.sub(r"0x[0-9a-f]+|==\d+==|\d+", "#", p.san)
        m = re.search(r"AddressSanitizer:? ([\w-]+)|runtime error: (.*)", p.san)
        fr = p.frames(3)
        c.violation("%s:%s" % (s.tool, ">".join(fr)[:160]), "%s: %s in %s" % (s.tool, (m and (m.group(1) or m.group(2)) or kind)[:200], " < ".join(fr)), dict(data, stderr=p.err[-3000:]))
        return False
    if p.rc < 0 and not p.diagnosed:
        a = re.search(r"[^\n]*Assertion[^\n]*", p.err)
        c.violation("%s:signal%d:%s" % (s.tool, -p.rc, a.group(0)[-80:] if a else ""), "%s was killed by signal %d: %s" % (s.tool, -p.rc, p.err[-300:]), dict(data, stderr=p.err[-3000:]))
        return False
    c.count(s.tool + (":processed" if p.rc == 0 else ":diagnosed"))
    return True


def build_case(r, i):
    fn, mode, _ = r.choices(SC, [w for _, _, w in SC])[0]
    s = fn(r, mode)
    if i % 40 == 0:
        return s, mode, "unchanged"
    ks = [k for k in s.files if s.files[k][0] != "config" or r.random() < .4] or list(s.files)
    tgt = r.sample(ks, min(len(ks), r.choice([1, 1, 1, 2])))
    for k in tgt:
        kind, t = s.files[k]
        o = [x[1] for n, x in s.files.items() if n != k]
        if kind == "config":
            keep = "".join(HEAVY.findall(t) and [m.group(0) + "\n" for m in HEAVY.finditer(t)])
            s.files[k][1] = mutate(r, HEAVY.sub("", t), kind, []) .rstrip("\n") + "\n\n" + keep
        else:
            s.files[k][1] = mutate(r, t, kind, o)
    return s, mode, ",".join(sorted(s.files[k][0] for k in tgt))


def one(c, i):
    r = c.sub("case%d" % i)
    s, mode, what = build_case(r, i)
    data = {"tool": s.tool, "args": s.args, "stdin": s.inp, "files": {k: v[1] for k, v in s.files.items()}, "mutated": what}
    p = execute(c, s, c.path("c%d" % i), c.exe[s.tool], TIMEOUT, LIMIT)


    c.case((s.tool, tuple(s.args), tuple(sorted((k, v[1]) for k, v in s.files.items()))), what != "unchanged", {"tool": s.tool, "args": s.args, "mutated": what} if i < 8 else None)
    c.count("mutated:" + what) if "," not in what else None
    if judge(c, s, p, i, what, data, i, c.exe[s.tool], LIMIT) and what == "unchanged":
        c.count("unchanged inputs " + ("processed" if p.rc == 0 else "refused"))


VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=12"]


def memcheck(c, i):
    """uninitialised values: inputs that are as they should be, and mutated ones"""
    r = c.sub("mem%d" % i)
    s, mode, what = build_case(r, 0 if i % 2 else 1)
    data = {"tool": s.tool, "args": s.args, "stdin": s.inp, "files": {k: v[1] for k, v in s.files.items()}, "mutated": what, "memcheck": True}
    p = execute(c, s, c.path("m%d" % i), c.plain[s.tool], CONFIRM, {}, VALGRIND)
    c.case(("memcheck", s.tool, tuple(s.args), tuple(sorted((k, v[1]) for k, v in s.files.items()))), True)
    if p.timeout:
        c.count("memcheck too slow")
        return
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Source and dest|Mismatched|Process terminating)[^\n]*)((?:\n==\d+==    (?:at|by)[^\n]*)*)", p.err)
    if m and not p.diagnosed or p.rc == 98:
        fr = [x for x in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*?) \(([\w.-]+):\d+\)", m.group(2) if m else "")]
        fr = [re.sub(r"\(.*", "", f) for f, fl in fr if f.startswith(("travatar", "lm::", "util::", "search::", "TERCpp", "main"))][:3]
        c.violation("memcheck:%s:%s" % (s.tool, ">".join(fr)), "%s: %s in %s" % (s.tool, m.group(1) if m else "", " < ".join(fr)), dict(data, stderr=p.err[-3000:]))
        return
    c.count("memcheck runs clean")


def deep(c):
    """trees that are nested more deeply than the stack goes"""
    n = 300000
    d = c.path("deep.penn")
    with open(d, "w") as f:
        f.write("(A " * n + "x" + ")" * n + "\n")
    p = run([c.exe["tree-converter"], "-input_format", "penn", "-output_format", "penn", d], None, timeout=300, env=LIMIT)
    os.unlink(d)
    c.case(("deep", n), True)
    if p.crashed and not p.diagnosed:
        c.violation("deep-nesting" if "stack-overflow" in p.err or p.rc == -11 else "deep-nesting:other", "a Penn tree with %d nested brackets ends tree-converter with %s" % (n, p.why()[:200]), {"depth": n})


def body(c):
    c.rule = "an execution counts when its input was mutated, or ran under memcheck; identity = (tool, arguments, contents of every input)"
    c.assumptions = ["requests for more than 1.5 GB at once or 2.6 GB in all count as out of memory, which the tools answer with bad_alloc",
                     "an uncaught exception that names its reason is a diagnosed error", "binary language models are trusted"]
    c.exe = common.build("asan", bins=TOOLS)
    c.plain = common.build("plain", bins=TOOLS)
    deep(c)
    common.pmap(lambda i: one(c, i), range(c.n(6000, 60000)))
    common.pmap(lambda i: memcheck(c, i), range(c.n(96, 1500)))


if __name__ == "__main__":
    common.main("C23", body)
