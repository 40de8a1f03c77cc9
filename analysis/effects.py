"""Interprocedural write effects: which parts of the receiver, parameters and globals a function may modify."""
import core, ir

MAXF = 3
NONMUT = {"begin", "end", "operator[]", "at", "front", "back", "data", "operator->", "operator*", "get", "find", "value", "cbegin", "cend",
          "rbegin", "rend", "operator bool", "lower_bound", "upper_bound", "equal_range", "crbegin", "crend"}
LOCKOPS = {"lock", "unlock", "lock_shared", "unlock_shared", "try_lock", "try_lock_shared", "owns_lock", "mutex", "release"}


def path_of(t, params, locs=None):
    """canonical term -> (root, fields) with root 'this', int (parameter index), 'G:name', ('L', var) or None"""
    fields = []
    for _ in range(80):
        k = t[0]
        if k == ".":
            fields.append(t[2])
            t = t[1]
        elif k in ("idx", "elem", "begin", "end", "rbegin", "rend"):
            if not fields or fields[-1] != "[]":
                fields.append("[]")
            t = t[1]
        elif k == "this":
            return "this", tuple(fields[::-1][:MAXF])
        elif k == "v":
            if t[1] in params:
                return params[t[1]], tuple(fields[::-1][:MAXF])
            return ("L", t[1]), tuple(fields[::-1][:MAXF])
        elif k == "g":
            return "G:" + str(t[1]), tuple(fields[::-1][:MAXF])
        elif k == "call":
            if t[2] is not None:
                fields.append("<%s>" % str(t[1]).rsplit("::", 1)[-1])
                t = t[2]
            elif len(t) > 3 and isinstance(t[3], tuple) and t[1] in ("std::get", "std::next", "std::prev", "std::find", "std::lower_bound", "std::get_if", "std::ranges::find"):
                t = t[3]
            else:
                return None, tuple(fields[::-1][:MAXF])
        elif k == "?:":
            a = path_of(t[2], params)
            return a
        elif k in ("op",) and t[1] in ("+", "-"):
            # pointer / iterator arithmetic
            a = path_of(t[2], params)
            if a[0] is None or (isinstance(a[0], tuple)):
                b = path_of(t[3], params)
                if b[0] is not None:
                    a = b
            return (a[0], a[1] + tuple(fields[::-1])) if a[0] is not None else (None, ())
        elif k in ("inc++", "inc--", "un++", "un--"):
            t = t[1]
        else:
            return None, tuple(fields[::-1][:MAXF])
    return None, ()


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.W = {}          # key -> {(root, fields): (loc, how)}
        self.cn = {}
        self.locc = {}
        self.sites = {}      # key -> list of (node id, root, fields, loc, via)
        self.build()

    def canon(self, f):
        c = self.cn.get(f.key)
        if c is None:
            c = self.cn[f.key] = core.Canon(f)
        return c

    def params(self, f):
        return {p["v"]: i for i, p in enumerate(f.params)}

    def escape_parent(self, f, root):
        """root of a lambda's captured variable in terms of the enclosing function (kept as ('L', v))"""
        return root

    def local_writes(self, f):
        """[(nid, root, fields)] direct writes"""
        out = []
        cn = self.canon(f)
        pr = self.params(f)
        vi = core.varinfo(f)

        def w(nid, target):
            n = f.N[target]
            # plain scalar/object variable: not an alias
            t = core.raw_path(f, target, cn)
            root, fields = path_of(t, pr)
            if root is None:
                return
            if isinstance(root, int):
                ty = f.T[f.params[root]["t"]]
                if not core.is_ref(ty) and not core.is_ptr(ty) and not self.handle_type(ty):
                    return        # by-value parameter
            if isinstance(root, tuple):
                g = vi.get(root[1])
                if g is not None and g.kind != "slocal" and not core.is_ptr(g.t) and not core.is_ref(g.t) and not self.handle_type(g.t):
                    return        # owned local object
            out.append((nid, root, fields))
        for x in f.all_nodes():
            n = f.N[x]
            k = n["k"]
            if k == "Assign" or (k == "Un" and n["op"] in ("++", "--")):
                w(x, n["c"][0])
            elif k == "Call":
                std = n.get("f") not in self.prog.F
                if n.get("o", -1) >= 0 and not n.get("mconst") and not n.get("static") and std:
                    last = n.get("fn", "").rsplit("::", 1)[-1]
                    if last not in NONMUT and last not in LOCKOPS and last not in ("wait", "get_future", "joinable", "join"):
                        w(x, n["o"])
                if std and n.get("op") in ("=", "+=", "<<=", "|=", "&=", "-=", "*=", "/=") and n.get("o", -1) < 0 and n.get("a"):
                    w(x, n["a"][0])
                if std:
                    pm = n.get("pm", "")
                    for i, a in enumerate(n.get("a", [])):
                        if i < len(pm) and pm[i] == "m" and not n.get("fn", "").startswith("std::basic_ostream") and n.get("fn") not in core.TRANSPARENT:
                            w(x, a)
                        elif n.get("fn") in ("std::sort", "std::copy", "std::transform", "std::fill", "std::reverse", "std::fill_n", "std::copy_n", "std::iota", "std::swap", "std::rotate", "std::stable_sort", "std::ranges::sort"):
                            if i == 0 and n["fn"] in ("std::sort", "std::fill", "std::reverse", "std::fill_n", "std::iota", "std::rotate", "std::stable_sort"):
                                w(x, a)
                            if i == 2 and n["fn"] in ("std::copy", "std::copy_n"):
                                w(x, a)
                            if i in (2, 3) and n["fn"] == "std::transform" and not f.N[a]["k"] == "Lambda":
                                w(x, a)
        return out

    def handle_type(self, t):
        t = core.strip_cv(t)
        return (t.startswith("std::span<") and not t.startswith("std::span<const")) or "_normal_iterator" in t or t.endswith("*") or \
            "_Rb_tree_iterator" in t or "unique_ptr" in t or "shared_ptr" in t or "reference_wrapper" in t or "_List_iterator" in t

    def build(self):
        prog = self.prog
        fns = [f for f in prog.live() if f.body >= 0 or f.get("inits")]
        calls = {}
        for f in fns:
            d = {}
            for nid, root, fields in self.local_writes(f):
                d.setdefault((root, fields), (nid, None))
            if f.get("ctor") or f.get("dtor"):
                pass
            self.W[f.key] = d
            cs = []
            for x in f.all_nodes():
                n = f.N[x]
                if n["k"] in ("Call", "Ctor") and n.get("f"):
                    ts = prog.targets(n)
                    if ts:
                        cs.append((x, n, ts))
                elif n["k"] == "Lambda":
                    if n["f"] in prog.F:
                        cs.append((x, n, [n["f"]]))
                    else:
                        pass
            # instantiations of a generic lambda are attached through 'parent'
            for lk in prog.lambdas_of.get(f.key, []):
                if not any(lk in ts for _, _, ts in cs):
                    cs.append((f.body, None, [lk]))
            calls[f.key] = cs
        self.calls = calls
        callers = {}
        for k, cs in calls.items():
            for x, n, ts in cs:
                for t in ts:
                    callers.setdefault(t, set()).add(k)
        work = [f.key for f in fns]
        inw = set(work)
        while work:
            k = work.pop()
            inw.discard(k)
            f = prog.F[k]
            d = self.W[k]
            ch = False
            for x, n, ts in calls[k]:
                for t in ts:
                    for (root, fields), _ in list(self.W.get(t, {}).items()):
                        m = self.map_up(f, n, prog.F[t], root, fields)
                        if m is None:
                            continue
                        if m not in d:
                            d[m] = (x, (t, root, fields))
                            ch = True
            if ch:
                for c in callers.get(k, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def map_up(self, f, n, g, root, fields):
        """effect (root, fields) of callee g at call node n of f -> effect of f, or None if it stays inside f"""
        cn = self.canon(f)
        pr = self.params(f)
        vi = core.varinfo(f)
        if isinstance(root, str) and root.startswith("G:"):
            return root, fields
        if n is None or n["k"] == "Lambda":
            if root == "this":
                return "this", fields          # captured this
            if isinstance(root, tuple):
                v = root[1]
                gvi = core.varinfo(g)
                if v in gvi and (gvi[v].decl is not None or gvi[v].rangevar is not None):
                    return None
                t = cn.var(v) if v in vi else None
                if t is None:
                    # captured from an outer function
                    return (root, fields) if f.get("lambda") else None
                return self.norm(f, t, fields, v)
            return None
        if root == "this":
            if n["k"] == "Ctor":
                return None
            o = n.get("o", -1)
            if o < 0:
                return None
            return self.norm(f, core.raw_path(f, o, cn), fields, None)
        if isinstance(root, int):
            a = n.get("a", [])
            # operator() through lambda objects etc. keep positions
            if root >= len(a):
                return None
            return self.norm(f, core.raw_path(f, a[root], cn), fields, None)
        return None

    def norm(self, f, t, fields, v):
        pr = self.params(f)
        vi = core.varinfo(f)
        root, fl = path_of(t, pr)
        if root is None:
            return None
        full = (fl + fields)[:MAXF]
        if isinstance(root, int):
            ty = f.T[f.params[root]["t"]]
            if not core.is_ref(ty) and not core.is_ptr(ty) and not self.handle_type(ty):
                return None
        if isinstance(root, tuple):
            g = vi.get(root[1])
            if g is None:
                return (root, full) if f.get("lambda") else None
            if not core.is_ptr(g.t) and not core.is_ref(g.t) and not self.handle_type(g.t) and g.kind != "slocal":
                return None
            if not f.get("lambda"):
                # alias of unknown origin (e.g. pointer obtained from a call): attribute to the origin's root if any
                if g.init is not None:
                    t2 = self.canon(f)(g.init)
                    r2, f2 = path_of(t2, pr)
                    if r2 is not None and r2 != root:
                        return self.norm(f, t2, fields, None)
                return None
        return root, full

    def explain(self, key, eff, depth=6):
        """call chain that leads to the write"""
        out = []
        k = key
        while depth > 0:
            depth -= 1
            e = self.W.get(k, {}).get(eff)
            if e is None:
                break
            nid, via = e
            f = self.prog.F[k]
            out.append("%s (%s)" % (f.short, f.loc(nid)))
            if via is None:
                break
            k, eff = via[0], (via[1], via[2])
        return " -> ".join(out)


def get(prog):
    e = prog.__dict__.get("_effects")
    if e is None:
        e = prog.__dict__["_effects"] = Effects(prog)
    return e
