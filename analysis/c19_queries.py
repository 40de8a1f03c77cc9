"""C19: what is declared read-only changes nothing that another thread could see."""
import re
import core, effects, locks, path, pp
from locks import R, W
from c10_missing import strip, last, lib
import c21_lifetime as life

RULE = ("a member function declared const changes nothing of its object, nor anything its object points to, unless what is changed is atomic or a synchronisation object, or an exclusive lock of the object is held at the "
        "change (by the function or by all that call it), or the object is a cursor or view of one user; constness is cast away only to obtain a lock; functions write no global and no static local "
        "variable that is not atomic or of the calling thread; a reference to the scratch memory of a thread is not given out")
TECHNIQUE = "effect analysis of const functions at each write, with object paths and lock-sets, over the typed syntax tree and the call graph"
LEVEL = "proof"

SYNC = re.compile(r"^std::(atomic\b|atomic<|atomic_|mutex|shared_mutex|recursive_mutex|condition_variable|once_flag|shared_timed_mutex|timed_mutex|recursive_timed_mutex)")
SKIP = {"make_pair", "make_unique", "make_shared", "make_tuple", "tie", "forward_as_tuple", "pair", "tuple", "forward", "move", "as_const", "ref", "cref", "addressof", "back_inserter", "get", "begin", "end", "data", "size",
        "unique_lock", "shared_lock", "lock_guard", "scoped_lock", "lock", "to_address", "distance", "next", "prev"}


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.E = effects.get(prog)
        self.L = locks.get(prog)
        self.fn = [f for f in prog.live() if lib(f)]
        self.callers = {}
        for f in self.fn:
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] in ("Call", "Ctor"):
                    for t in prog.targets(n):
                        self.callers.setdefault(t, []).append((f, i))

    def top(self, f):
        while f is not None and f.get("lambda"):
            f = self.p.F.get(f.get("parent", ""))
        return f

    def const(self, f):
        t = self.top(f)
        return t is not None and bool(t.get("const")) and not t.get("ctor") and not t.get("dtor")

    # -- where a written place is rooted ----------------------------------------------------------------------
    def root(self, f, i):
        """(root kind, variable, [fields from the root outwards: (name, fd, owning class)], steps over pointers)"""
        fs = []
        for _ in range(40):
            i = strip(f, i)
            if i is None or i < 0:
                return None, None, fs
            n = f.N[i]
            k = n["k"]
            if k == "This":
                return "this", None, fs[::-1]
            if k == "Mem" and n.get("c"):
                fs.append((n["n"], n.get("fd") or ""))
                i = n["c"][0]
            elif k in ("Sub",) or k == "Un" and n.get("op") in ("*", "&", "++", "--") or k == "Cast" and n.get("c"):
                i = n["c"][0]
            elif k == "Assign":
                i = n["c"][0]
            elif k == "Cond":
                i = n["c"][-1]
            elif k == "Call" and n.get("op") in ("*", "->", "[]", "()", "+", "-", "++", "--") and not self.p.targets(n):
                i = n["o"] if n.get("o", -1) >= 0 else n["a"][0]
            elif k == "Call" and n.get("o", -1) >= 0 and not self.p.targets(n) and last(n) in effects.NONMUT | {"emplace_back", "value_or", "load"}:
                i = n["o"]
            elif k == "Call" and n.get("fn", "").startswith("std::") and last(n) in ("move", "forward", "as_const", "get", "next", "prev", "addressof", "to_address", "begin", "end", "data") and n.get("a"):
                i = n["a"][0]
            elif k == "Call" and n.get("o", -1) >= 0 and life.Ctx.rt(self.lf, f, i).endswith(("&", "*")) and any(t in self.lf.own or self.handsout(t) for t in self.p.targets(n)):
                i = n["o"]
            elif k == "Ref" and n.get("v"):
                g = core.varinfo(f).get(n["v"])
                h = f
                while g is None and h.get("lambda"):
                    h = self.p.F.get(h.get("parent", ""))
                    if h is None:
                        break
                    g = core.varinfo(h).get(n["v"])
                if g is None:
                    return ("glob", n["v"], fs[::-1]) if n.get("dk") == "glob" else (None, None, fs)
                if g.kind == "slocal":
                    return "static", n, fs[::-1]
                if h is f and g.kind == "local" and (life.refers(g.t) or g.t.endswith("&")) and g.init is not None and g.init >= 0:
                    i = g.init
                    continue
                if h is f and g.rangevar is not None and g.t.endswith("&"):
                    i = f.N[g.rangevar]["range"]
                    continue
                if g.kind == "parm":
                    return "parm", n["v"], fs[::-1]
                return None, None, fs
            elif k == "Ref" and n.get("dk") == "glob":
                return "glob", n.get("n"), fs[::-1]
            else:
                return None, None, fs
        return None, None, fs

    def handsout(self, t):
        """a getter that gives a reference or pointer out of a field of its object"""
        m = self._ho.get(t)
        if m is None:
            self._ho[t] = False
            g = self.p.F.get(t)
            ok = False
            if g is not None and not g.get("ctor") and not g.get("lambda") and g.body >= 0:
                rs = [r for r in g.all_nodes() if g.N[r]["k"] == "Return" and g.kids(r)]
                ok = bool(rs) and all(self.root(g, g.kids(r)[0])[0] == "this" for r in rs)
            self._ho[t] = m = ok
        return m

    # -- the writes of a function -----------------------------------------------------------------------------------
    def sites(self, f):
        """(node, expression written)"""
        out = []
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Assign" or n["k"] == "Un" and n.get("op") in ("++", "--"):
                out.append((i, n["c"][0]))
            elif n["k"] == "Call":
                ts = self.p.targets(n)
                o = n.get("o", -1)
                if o >= 0 and not n.get("mconst") and not n.get("static"):
                    if ts:
                        if any(r == "this" for t in ts for (r, _) in self.E.W.get(t, {})) and not all(self.p.F[t].get("const") for t in ts):
                            out.append((i, o))
                    elif last(n) not in effects.NONMUT and last(n) not in effects.LOCKOPS and n.get("op") not in ("*", "->", "[]", "()"):
                        out.append((i, o))
                pm = n.get("pm", "")
                if n.get("op") in ("=", "+=", "-=", "*=", "|=", "&=", "++", "--", "<<=") and o < 0 and n.get("a"):
                    out.append((i, n["a"][0]))
                for k, a in enumerate(n.get("a", [])):
                    if k < len(pm) and pm[k] == "m":
                        if ts:
                            if any(r == k for t in ts for (r, _) in self.E.W.get(t, {})):
                                out.append((i, a))
                        elif last(n) not in SKIP and n.get("fn") not in core.TRANSPARENT and not n.get("op"):
                            out.append((i, a))
        return out

    def stepping(self, f, i, e):
        """the variable itself (an iterator, pointer or counter) is moved on, not what it refers to"""
        x = strip(f, e)
        n = f.N[x]
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            return g is None and n.get("dk") in ("local", "parm", "bind") or g is not None and g.kind != "slocal" and not g.t.endswith("&")
        return False

    def locked(self, f, i, depth=0):
        """an exclusive lock is held at the node, in the function or in all that call it"""
        h, j = f, i
        while True:
            for own, m, v in self.L.info(h).at(j):
                if m == W:
                    return True
            if not h.get("lambda"):
                break
            p = self.p.F.get(h.get("parent", ""))
            if p is None:
                break
            j = next((x for x in p.all_nodes() if p.N[x]["k"] == "Lambda" and p.N[x].get("f") == h.key), None)
            if j is None:
                break
            h = p
        cs = self.callers.get(h.key, [])
        if not cs or depth > 4 or h.get("acc") == "public" and not h.get("virt") and not core.newly(h):
            return False
        return all(g.get("ctor") or self.locked(g, j, depth + 1) for g, j in cs)

    def ftype(self, fd):
        r = self.p.R.get(fd.rsplit("::", 1)[0])
        if not r:
            r = next((x for c, x in self.p.R.items() if re.sub(r"<.*>", "", c) == fd.rsplit("::", 1)[0]), None)
        return next((x["t"] for x in (r or {}).get("fields", []) if x.get("n") == fd.rsplit("::", 1)[-1]), "")

    def cursor(self, cls):
        """objects of one user: iterators, and views made for one call over another object (never stored in another object)"""
        c = re.sub(r"<.*>", "", cls)
        if c in self._cur:
            return self._cur[c]
        r = [x for k, x in self.p.R.items() if re.sub(r"<.*>", "", k) == c]
        view = any(any(life.refers(x["t"]) for x in q.get("fields", [])) for q in r)
        kept = any(re.search(r"(?<![\w:])" + re.escape(c) + r"(?![\w:])", re.sub(r"<[^<>]*>", "", x["t"]) if k else x["t"]) for k, q in self.p.R.items() for x in q.get("fields", [])
                   if re.sub(r"<.*>", "", k) != c and not re.search(r"Iterator|Range", k))
        self._cur[c] = view and not kept
        return self._cur[c]


def check(prog, rep, tier):
    X = Ctx(prog)
    X.lf = life.Ctx(prog)
    X._ho, X._cur = {}, {}
    for f in X.fn:
        t = X.top(f)
        if t is None:
            continue
        cf = X.const(f)
        if cf and not f.get("lambda"):
            rep.ok("const", f.short, f.loc(f.body) if f.body >= 0 else f.loc(), "looked through")
        for i, e in X.sites(f):
            if X.stepping(f, i, e):
                continue
            r, v, fs = X.root(f, e)
            if r == "static":
                g = core.varinfo(f).get(v["v"])
                good = v.get("tls") or SYNC.match(life.bare(g.t)) or X.locked(f, i)
                rep.add(bool(good), "static", "%s|%s" % (f.short, v["v"].split("#")[0]), f.loc(i), "" if good else
                        "%s changes its static variable `%s`, which all threads share, without a lock" % (f.short, v["v"].split("#")[0]))
            elif r == "glob":
                G = prog.G.get(v) or {}
                good = G.get("tls") or SYNC.match(life.bare(G.get("t", ""))) or X.locked(f, i) or not G
                rep.add(bool(good), "static", "%s|%s" % (f.short, v), f.loc(i), "" if good else "%s changes the global `%s` without a lock" % (f.short, v))
            elif r == "this" and cf:
                judge(X, f, i, e, fs, rep, "this object")
            elif r == "parm" and not f.get("lambda"):
                q = next((q for q in f.params if q["v"] == v), None)
                if q is not None and f.T[q["t"]].startswith("const ") and f.T[q["t"]].endswith("&") and fs:
                    judge(X, f, i, e, fs, rep, "`%s`" % v.split("#")[0])
        casts(X, f, rep)
        scratch(X, f, rep)


def judge(X, f, i, e, fs, rep, what):
    key = "%s|%s" % (f.short, ".".join(n for n, _ in fs) or what)
    for n, fd in fs:
        if SYNC.match(life.bare(X.ftype(fd) if fd else "")):
            rep.ok("write", key, f.loc(i), "atomic or synchronisation")
            return
    if SYNC.match(life.bare(f.ty(strip(f, e)))):
        rep.ok("write", key, f.loc(i), "atomic or synchronisation")
        return
    if fs and fs[0][1] and X.cursor(fs[0][1].rsplit("::", 1)[0]):
        rep.ok("write", key, f.loc(i), "cursor or view of one user")
        return
    good = X.locked(f, i)
    rep.add(good, "write", key, f.loc(i), "" if good else "%s is read-only but changes `%s` of %s with no exclusive lock held: `%s`" % (f.short, ".".join(n for n, _ in fs), what, pp.ex(f, i)[:70]))


def casts(X, f, rep):
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Cast" or n.get("ck") != "CXXConstCastExpr":
            continue
        # (a) only to obtain a lock, (b) of what the function itself owns
        P = f.parents()
        up = P.get(i)
        while up is not None and f.N[up]["k"] in ("Cast", "Paren", "Expr", "Clean", "Bind", "Mat"):
            up = P.get(up)
        m = f.N[up] if up is not None else {}
        good = m.get("k") == "Call" and m.get("o", -1) >= 0 and i in set(f.walk(m["o"])) and last(m) in ("get_write_lock", "get_read_lock", "lock", "lock_shared", "unlock", "unlock_shared", "try_lock", "try_lock_shared")
        if not good:
            d = next((y for j in f.all_nodes() if f.N[j]["k"] == "Decl" for y in f.N[j]["vars"] if y.get("i", -1) is not None and y.get("i", -1) >= 0 and strip(f, y["i"]) == strip(f, i) and i in set(f.walk(y["i"]))), None)
            if d is not None:       # a name for the object: nothing but locks is asked of it
                good = all(onlylock(f, P, u) for u in life.uses(f, d["v"]))
        if not good:
            r, v, fs = X.root(f, f.kids(i)[0])
            if r == "this" and not X.const(f):
                good = True
            if r is None or r == "parm" and not X.constparm(f, v):
                good = r is not None or owned(X, f, f.kids(i)[0])
            if not good and (r == "this" or r == "parm"):
                good = X.locked(f, i)
        rep.add(bool(good), "cast", "%s|%s" % (f.short, pp.ex(f, f.kids(i)[0])[:40]), f.loc(i), "" if good else "%s casts away constness of `%s`" % (f.short, pp.ex(f, f.kids(i)[0])[:40]))


LOCKS = ("get_write_lock", "get_read_lock", "lock", "lock_shared", "unlock", "unlock_shared", "try_lock", "try_lock_shared")


def onlylock(f, P, u):
    up = P.get(u)
    while up is not None and f.N[up]["k"] in ("Cast", "Paren", "Expr", "Un"):
        up = P.get(up)
    m = f.N[up] if up is not None else {}
    return m.get("k") == "Call" and m.get("o", -1) >= 0 and u in set(f.walk(m["o"])) and (last(m) in LOCKS or bool(m.get("mconst")))


def owned(X, f, i):
    """made by this function (a local object or pointer of its own)"""
    for _ in range(20):
        i = strip(f, i)
        n = f.N[i]
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is None:
                return False
            if g.kind in ("local",) and not life.refers(g.t):
                return True
            if g.init is None or g.init < 0:
                return False
            i = g.init
        elif n["k"] == "Call" and n.get("o", -1) >= 0:
            i = n["o"]
        elif n["k"] in ("Mem", "Un", "Sub", "Cast") and n.get("c"):
            i = n["c"][0]
        else:
            return False
    return False


def constparm(X, f, v):
    q = next((q for q in f.params if q["v"] == v), None)
    return q is None or f.T[q["t"]].startswith("const ")


Ctx.constparm = constparm


def scratch(X, f, rep):
    """thread-local scratch is not given out of the module"""
    t = X.lf.rtype(f)
    if not (t.endswith(("&", "*")) or life.refers(t)) or f.get("lambda"):
        return
    internal = "(anon" in f.short or "anonymous namespace" in f.get("name", "") or f.get("acc") == "private" or f.get("internal")
    for r in f.all_nodes():
        if f.N[r]["k"] != "Return" or not f.kids(r):
            continue
        k, v, fs = X.root(f, f.kids(r)[0])
        if k == "static":
            g = core.varinfo(f).get(v["v"])
            good = internal or g.t.startswith("const ") or t.startswith("const ") and not v.get("tls")
            rep.add(bool(good), "scratch", f.short, f.loc(r), "" if good else "%s gives out a reference to `%s`, which the next call overwrites" % (f.short, v["v"].split("#")[0]))
