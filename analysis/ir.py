"""Program database: runs the libTooling extractor over every translation unit of /repo's library and loads the facts."""
import hashlib, json, os, pickle, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache

VERIF = os.environ.get("MOMENT_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MOMENT_REPO") or "/repo"
LIB = REPO + "/cpp/lib_moment"
BUILD = os.path.join(VERIF, "build")
MIR = os.path.join(BUILD, "mir")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure): neither pass nor violation."""


def build_tool():
    src = os.path.join(VERIF, "tool", "mir.cpp")
    os.makedirs(BUILD, exist_ok=True)
    stamp = MIR + ".stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(MIR) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = MIR + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
           "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-4000:])
    os.replace(tmp, MIR)
    with open(stamp, "w") as f:
        f.write(h)


def tu_flags(extra_std="gnu++20"):
    fl = ["-x", "c++", "-std=" + extra_std]
    g12 = "/usr/lib/gcc/x86_64-linux-gnu/12"
    if os.path.isdir(g12) and os.path.isdir("/usr/include/c++/12"):
        fl.append("--gcc-install-dir=" + g12)
    fl += ["-include", "numeric", "-include", os.path.join(VERIF, "tool", "compat.h"), "-DUNIX", "-DNDEBUG",
           "-I" + REPO + "/cpp/eigen", "-I" + LIB, "-isystem", "/usr/include/eigen3",
           "-resource-dir", LLVM + "/lib/clang/18", "-w"]
    return fl


def units():
    out = []
    for d, _, fs in os.walk(LIB):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    out.sort()
    return out


def extra_units():
    """our own translation units: explicit instantiations of header templates the library itself leaves uninstantiated"""
    d = os.path.join(VERIF, "tool", "extra")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def header_hash():
    h = hashlib.sha256()
    for base in (LIB, REPO + "/cpp/eigen"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "tool", "mir.cpp"), "rb").read())
    return h.hexdigest()


def run_unit(main, roots, hh):
    """run_mir with a development-time cache per unit (only if MOMENT_TUCACHE names a directory)"""
    cd = os.environ.get("MOMENT_TUCACHE")
    if not cd:
        return run_mir(main, roots)
    import zlib
    h = hashlib.sha256((main + hh).encode() + open(main, "rb").read()).hexdigest()[:24]
    p = os.path.join(cd, h)
    if os.path.exists(p):
        os.utime(p)
        return 0, zlib.decompress(open(p, "rb").read()), ""
    r = run_mir(main, roots)
    if r[0] == 0:
        os.makedirs(cd, exist_ok=True)
        open(p + ".%d" % os.getpid(), "wb").write(zlib.compress(r[1], 1))
        os.replace(p + ".%d" % os.getpid(), p)
    return r


def run_mir(main, roots, flags=None, cwd=None):
    cmd = [MIR, main]
    for r in roots:
        cmd += ["--root", r]
    cmd += ["--"] + (flags or tu_flags())
    r = subprocess.run(cmd, capture_output=True, cwd=cwd or BUILD)
    return r.returncode, r.stdout, r.stderr.decode("utf8", "replace")


def tree_hash():
    h = hashlib.sha256()
    for p in [os.path.join(VERIF, "tool", "mir.cpp"), os.path.join(VERIF, "tool", "compat.h"), os.path.abspath(__file__)]:
        h.update(open(p, "rb").read())
    for p in extra_units():
        h.update(open(p, "rb").read())
    for base in (LIB, REPO + "/cpp/eigen"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


class Fn:
    """One function definition with resolved nodes and CFG."""
    __slots__ = ("key", "d", "N", "T", "_cfg", "_parents", "_memo", "prog")

    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.N = d["nodes"]
        self.T = d["T"]
        self._cfg = None
        self._parents = None
        self._memo = {}

    def __getattr__(self, n):
        if n in ("name", "file", "line", "params", "body"):
            return self.d[n]
        raise AttributeError(n)

    def get(self, n, dflt=None):
        return self.d.get(n, dflt)

    @property
    def short(self):
        n = self.d["name"]
        return n[8:] if n.startswith("Moment::") else n

    @property
    def rel(self):
        f = self.d["file"]
        p = REPO + "/"
        return f[len(p):] if f.startswith(p) else f

    def loc(self, nid=None):
        l = self.d["line"]
        if nid is not None and nid >= 0:
            l = self.N[nid].get("l") or l
        return "%s:%d" % (self.rel, l)

    def ty(self, nid):
        t = self.N[nid].get("t")
        return self.T[t] if t is not None else ""

    def kids(self, nid):
        n = self.N[nid]
        c = n.get("c")
        if c is None:
            return ()
        return [x for x in c if x >= 0]

    def walk(self, nid):
        """pre-order over the expression/statement tree (shared nodes visited once)"""
        seen = set()
        st = [nid]
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(self.kids(x)))

    def all_nodes(self):
        """node ids reachable from body and ctor inits, i.e. actual program text (pseudo-nodes excluded)"""
        m = self._memo.get("all")
        if m is None:
            m = []
            seen = set()
            roots = [i["i"] for i in self.d.get("inits", [])]
            roots.append(self.d["body"])
            for r in roots:
                for x in self.walk(r):
                    if x not in seen:
                        seen.add(x)
                        m.append(x)
            self._memo["all"] = m
        return m

    def parents(self):
        if self._parents is None:
            p = {}
            for x in range(len(self.N)):
                for c in self.kids(x):
                    if c not in p:
                        p[c] = x
            self._parents = p
        return self._parents

    @property
    def cfg(self):
        if self._cfg is None:
            c = self.d.get("cfg")
            self._cfg = CFG(self, c) if c else False
        return self._cfg or None


class CFG:
    def __init__(self, fn, c):
        self.fn = fn
        self.entry = c["entry"]
        self.exit = c["exit"]
        self.b = {b["id"]: b for b in c["b"]}
        self.throws = set()
        for i, b in self.b.items():
            if any(fn.N[e]["k"] == "Throw" for e in b["e"]):
                # an exceptional exit is not a normal return
                self.throws.add(i)
                b["s"] = [None if s == self.exit else s for s in b["s"]]
        self.succ = {i: [s for s in b["s"] if s is not None] for i, b in self.b.items()}
        self.pred = {i: [] for i in self.b}
        for i, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(i)
        # reachable only
        self.reach = set()
        st = [self.entry]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st.extend(self.succ[x])
        self.where = {}
        for i, b in self.b.items():
            for k, e in enumerate(b["e"]):
                self.where.setdefault(e, (i, k))

    def rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(x)
                st.pop()
        out.reverse()
        return out

    def term(self, bid):
        """terminator node id"""
        return self.b[bid].get("t")

    def cond(self, bid):
        return self.b[bid].get("tc")

    def two_way(self, bid):
        return len(self.b[bid]["s"]) == 2 and self.b[bid].get("tc") is not None


def forward(cfg, init, transfer, meet, edge=None, max_iter=200000):
    """Generic forward worklist.  transfer(bid, state)->state;  meet(a,b)->state; edge(bid, idx, succ, state)->state or None(infeasible)
    Returns state at block entry."""
    order = {b: i for i, b in enumerate(cfg.rpo())}
    IN = {cfg.entry: init}
    import heapq
    wl = [(order[cfg.entry], cfg.entry)]
    inwl = {cfg.entry}
    it = 0
    while wl:
        _, b = heapq.heappop(wl)
        inwl.discard(b)
        it += 1
        if it > max_iter:
            raise AnalysisBroken("dataflow did not converge in " + cfg.fn.name)
        out = transfer(b, IN[b])
        for idx, s in enumerate(cfg.b[b]["s"]):
            if s is None:
                continue
            st = out if edge is None else edge(b, idx, s, out)
            if st is None:
                continue
            if s not in IN:
                IN[s] = st
            else:
                n = meet(IN[s], st)
                if n == IN[s]:
                    continue
                IN[s] = n
            if s not in inwl:
                inwl.add(s)
                heapq.heappush(wl, (order.get(s, 1 << 30), s))
    return IN


class Program:
    def __init__(self):
        self.F = {}
        self.R = {}          # by full type name
        self.E = {}
        self.G = {}
        self.units = []
        self.byname = {}
        self.errors = []

    def add_text(self, txt):
        for ln in txt.split(b"\n"):
            if not ln:
                continue
            k, key, js = ln.split(b"\t", 2)
            key = key.decode()
            if k == b"F":
                if key not in self.F:
                    self.F[key] = js
            elif k == b"R":
                self.R.setdefault(key, js)
            elif k == b"E":
                self.E.setdefault(key, js)
            elif k == b"G":
                self.G.setdefault(key, js)

    def finish(self):
        for t in ("R", "E", "G"):
            d = getattr(self, t)
            setattr(self, t, {k: json.loads(v) for k, v in d.items()})
        F = {}
        for k, v in self.F.items():
            f = Fn(k, json.loads(v))
            f.prog = self
            F[k] = f
        self.F = F
        self.byname = {}
        for f in F.values():
            self.byname.setdefault(f.name, []).append(f)
        # overriders
        self.over = {}
        for f in F.values():
            for o in f.get("ovr", []) or []:
                self.over.setdefault(o, set()).add(f.key)
        ch = True
        while ch:
            ch = False
            for o, s in self.over.items():
                add = set()
                for k in s:
                    add |= self.over.get(k, set())
                if not add <= s:
                    s |= add
                    ch = True
        self.lambdas_of = {}
        for f in F.values():
            if f.get("parent"):
                self.lambdas_of.setdefault(f.get("parent"), []).append(f.key)
        self.rec = {}
        for k, r in self.R.items():
            self.rec.setdefault(r["name"], []).append(r)
        # class hierarchy by qualified name
        self.bases = {}
        for r in self.R.values():
            self.bases.setdefault(r["name"], set()).update(r["bases"])

    # -- queries -------------------------------------------------------------------------------------------------
    def live(self):
        """non-dependent functions"""
        return [f for f in self.F.values() if not f.get("dep")]

    def find(self, name, need=True, pred=None):
        """functions by qualified name (without template args); 'Moment::' prefix optional"""
        r = self.byname.get(name) or self.byname.get("Moment::" + name) or []
        r = [f for f in r if not f.get("dep") and (f.get("cfg") or f.body >= 0)]
        if pred:
            r = [f for f in r if pred(f)]
        if need and not r:
            raise AnalysisBroken("anchor vanished: no definition of " + name)
        return r

    def is_a(self, cls, base):
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            for b in self.bases.get(c, ()):
                st.append(b.split("<")[0])
        return False

    def subclasses(self, base):
        return sorted(c for c in self.bases if self.is_a(c, base))

    def targets(self, n):
        """possible callee keys of a Call/Ctor node (virtual dispatch expanded)"""
        k = n.get("f")
        if not k:
            return []
        out = [k] if k in self.F else []
        if n.get("virt") and not n.get("qual"):
            out += [o for o in self.over.get(k, ()) if o in self.F]
        return out


def load(verbose=True, use_cache=True):
    t0 = time.time()
    build_tool()
    us = units()
    if len(us) < 100:
        raise AnalysisBroken("only %d translation units found under %s" % (len(us), LIB))
    th = tree_hash()
    cache = os.path.join(BUILD, "ir-%s.bin" % th)
    p = Program()
    p.units = us
    if use_cache and os.path.exists(cache):
        with open(cache, "rb") as f:
            p.F, p.R, p.E, p.G = pickle.load(f)
    else:
        roots = [REPO + "/cpp/"]
        hh = header_hash() if os.environ.get("MOMENT_TUCACHE") else ""
        n = min(8, os.cpu_count() or 4)
        bad = []
        with ThreadPoolExecutor(n) as ex:
            for u, (rc, out, err) in zip(us, ex.map(lambda u: run_unit(u, roots, hh), us)):
                if rc != 0:
                    bad.append(u + "\n" + err[-1500:])
                p.add_text(out)
            for u, (rc, out, err) in zip(extra_units(), ex.map(lambda u: run_unit(u, roots, hh), extra_units())):
                if rc == 0:
                    p.add_text(out)     # an instantiation the current headers no longer offer is simply not analysed
        if bad:
            raise AnalysisBroken("%d unit(s) do not parse:\n%s" % (len(bad), "\n".join(bad[:3])))
        if use_cache:
            for o in os.listdir(BUILD):
                if o.startswith("ir-") and o.endswith(".bin"):
                    try:
                        if time.time() - os.path.getmtime(os.path.join(BUILD, o)) > 600:
                            os.unlink(os.path.join(BUILD, o))
                    except OSError:
                        pass
            tmp = cache + ".%d.tmp" % os.getpid()
            with open(tmp, "wb") as f:
                pickle.dump((p.F, p.R, p.E, p.G), f, protocol=4)
            os.replace(tmp, cache)
    p.finish()
    p.load_s = time.time() - t0
    return p


def load_text(code, name="example.cpp", extra=()):
    """Parse a small self-contained example (used for positive examples of expected-zero rules)."""
    build_tool()
    d = os.path.join(BUILD, "ex-%d-%s" % (os.getpid(), hashlib.sha256(code.encode()).hexdigest()[:10]))
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, name)
    with open(fn, "w") as f:
        f.write(code)
    rc, out, err = run_mir(fn, [d], tu_flags() + list(extra))
    os.unlink(fn)
    os.rmdir(d)
    if rc:
        raise AnalysisBroken("example does not parse: " + err[-2000:])
    p = Program()
    p.units = [fn]
    p.add_text(out)
    p.finish()
    return p
