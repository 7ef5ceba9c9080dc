"""Content-addressed build of /repo's current sources with sanitizers.

Objects are keyed by a hash of (source, every header of the tree, flags), so a
changed source is never mistaken for an old one whatever its mtime is.  Nothing
is written below /repo.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
NPROC = min(8, os.cpu_count() or 1)

UBSAN = ("-fsanitize=bounds,signed-integer-overflow,shift,integer-divide-by-zero,"
         "float-cast-overflow,bool,enum,return,unreachable,vla-bound,null,nonnull-attribute,returns-nonnull-attribute")
COMMON = ["-std=gnu++11", "-g1", "-fno-omit-frame-pointer", "-include", "map", "-w",
          "-DKENLM_MAX_ORDER=6", "-DHAVE_CONFIG_H_VF",
          "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
VARIANTS = {
    # memory + undefined behaviour; reports are fatal
    "asan": ("clang++", "clang", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", UBSAN, "-fno-sanitize-recover=all",
                                  "-fno-sanitize=function", "-fsanitize-ignorelist=" + os.path.join(VERIF, "vf/ignore.txt")]),
    # data races
    "tsan": ("clang++", "clang", ["-O1", "-fsanitize=thread"]),
    # optimised, uninstrumented (for volume)
    "plain": ("clang++", "clang", ["-O1"]),
}
LIBS = ["-lboost_thread", "-lboost_regex", "-lboost_iostreams", "-lboost_system", "-lboost_locale",
        "-lboost_program_options", "-lboost_filesystem",
        "-lrt", "-lz", "-licui18n", "-licuuc", "-licudata", "-lpthread"]


class BuildError(Exception):
    pass


def _am_sources(amfile, var):
    """the source list assigned to `var` in a Makefile.am"""
    txt = open(amfile).read().replace("\\\n", " ")
    m = re.search(r"^\s*%s\s*=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        return None
    return [w for w in m.group(1).split() if re.search(r"\.(cc|cpp|c)$", w)]


def lib_sources():
    out = []
    for d, am, var in (("src/lib", "src/lib/Makefile.am", "TRAVATARCPP"),
                       ("src/kenlm/lm", "src/kenlm/lm/Makefile.am", "libklm_la_SOURCES"),
                       ("src/kenlm/util", "src/kenlm/util/Makefile.am", "libklm_util_la_SOURCES"),
                       ("src/kenlm/search", "src/kenlm/search/Makefile.am", "libklm_search_la_SOURCES")):
        got = _am_sources(os.path.join(REPO, am), var)
        if not got:
            raise BuildError("no source list in " + am)
        for s in got:
            if s.endswith("_main.cc"):
                continue
            out.append(os.path.join(REPO, d, s))
    out += sorted(glob.glob(os.path.join(REPO, "src/tercpp/*.cpp")))
    out += sorted(glob.glob(os.path.join(REPO, "src/liblbfgs/*.c")))
    out += sorted(glob.glob(os.path.join(REPO, "src/marisa/marisa/*.cc")) +
                  glob.glob(os.path.join(REPO, "src/marisa/marisa/**/*.cc"), recursive=True))
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(s)
    return res


def _headers_digest():
    h = hashlib.sha256()
    pats = ("h", "hh", "hpp", "hxx", "inc")
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(fs):
            if f.rsplit(".", 1)[-1] in pats:
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "drivers", "*.h"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()


class Builder(object):
    def __init__(self, variant):
        self.variant = variant
        self.cxx, self.cc, self.flags = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.hdig = _headers_digest()

    def _key(self, src, extra):
        h = hashlib.sha256()
        h.update(self.hdig.encode())
        h.update(" ".join([self.cxx] + self.flags + COMMON + extra).encode())
        h.update(src.encode() + b"\0")
        h.update(open(src, "rb").read())
        return h.hexdigest()[:20]

    def compile(self, src, extra=()):
        extra = list(extra)
        key = self._key(src, extra)
        base = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
        obj = os.path.join(self.dir, "%s-%s.o" % (base, key))
        if os.path.exists(obj):
            return obj
        is_c = src.endswith(".c")
        cmd = [self.cc if is_c else self.cxx] + self.flags
        common = list(COMMON)
        if is_c:
            common = [c for c in common if c not in ("-std=gnu++11", "-include", "map")]
        inc = ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src/kenlm"),
               "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/marisa"),
               "-I" + os.path.join(REPO, "src/liblbfgs"), "-I" + os.path.join(VERIF, "drivers")]
        tmp = obj + ".tmp%d" % os.getpid()
        cmd += common + inc + extra + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (src, r.stdout.decode("utf8", "replace")[:1200]))
        os.rename(tmp, obj)
        return obj

    def link(self, name, objs, archive):
        h = hashlib.sha256(("\n".join(objs) + archive).encode()).hexdigest()[:20]
        exe = os.path.join(self.dir, "%s-%s" % (name, h))
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = [self.cxx] + self.flags + objs + [archive] + LIBS + ["-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (name, r.stdout.decode("utf8", "replace")[:1200]))
        os.rename(tmp, exe)
        return exe


def build(variant, bins=(), drivers=(), kenlm_bins=()):
    """Returns {name: executable path} for the /repo binaries, /verif/drivers drivers and kenlm tools asked for."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = Builder(variant)
        libs = lib_sources()
        mains = {}
        for n in bins:
            mains[n] = os.path.join(REPO, "src/bin", n + ".cc")
        for n in drivers:
            mains[n] = os.path.join(VERIF, "drivers", n + ".cc")
        for n in kenlm_bins:
            mains[n] = os.path.join(REPO, "src/kenlm/lm", {"query": "query_main.cc", "build_binary": "build_binary_main.cc",
                                                          "lmplz": "builder/lmplz_main.cc"}[n])
        order = sorted(libs, key=lambda s: (-os.path.getsize(s), s))
        slow = ("hyper-graph.cc", "travatar-runner.cc", "model.cc", "lm-composer-incremental.cc", "lookup-table-fsm.cc")
        order.sort(key=lambda s: 0 if os.path.basename(s) in slow else 1)
        todo = [mains[n] for n in mains] + order
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            objs = dict(zip(todo, ex.map(b.compile, todo)))
        libobjs = [objs[s] for s in libs]
        h = hashlib.sha256("\n".join(libobjs).encode()).hexdigest()[:20]
        ar = os.path.join(b.dir, "liball-%s.a" % h)
        if not os.path.exists(ar):
            tmp = ar + ".tmp%d" % os.getpid()
            if os.path.exists(tmp):
                os.unlink(tmp)
            r = subprocess.run(["ar", "rcs", tmp] + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("ar failed: " + r.stdout.decode())
            os.rename(tmp, ar)
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            names = list(mains)
            exes = list(ex.map(lambda n: b.link(n, [objs[mains[n]]], ar), names))
        return dict(zip(names, exes))


if __name__ == "__main__":
    import time
    t = time.time()
    v = sys.argv[1]
    print(build(v, bins=sys.argv[2:]))
    print("%.1fs" % (time.time() - t))
