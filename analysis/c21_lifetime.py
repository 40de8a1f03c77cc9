"""C21: no reference, iterator, view or pointer is used after what it refers to has gone."""
import re
import core, path, pp
from c10_missing import strip, last, lib, binds

RULE = ("references, pointers, iterators and views into containers: between the making of one and its last use the container is not grown, emptied or replaced (by the function itself or by anything it calls) "
        "in a way that moves or ends the element; none is returned to a local object, a parameter held by value or a temporary; no class keeps one to a parameter held by value or a temporary; "
        "an operation that takes its own lock returns no reference to an element that a later growth moves")
TECHNIQUE = "interprocedural points-into and growth summaries over the call graph, with path reachability from growth to use"
LEVEL = "proof"

VEC = re.compile(r"^(std::vector<|std::(__cxx11::)?basic_string<|std::string$|Moment::SmallVector<|std::deque<|std::(multi)?map<|std::(multi)?set<|std::unordered_\w+<|std::list<)")
STABLE = re.compile(r"^std::((multi)?map|(multi)?set|unordered_\w+|list)<")
ELEM = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "data", "c_str", "find", "lower_bound", "upper_bound",
        "insert", "emplace", "emplace_back", "erase", "try_emplace", "insert_or_assign", "equal_range", "emplace_hint"}
ITER = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "find", "lower_bound", "upper_bound", "insert", "erase", "emplace", "try_emplace", "equal_range"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "reserve", "assign", "shrink_to_fit", "push_front", "emplace_front", "append", "operator+="}
DROP = {"clear", "erase", "swap", "operator=", "assign", "resize", "extract", "merge", "pop_front"}
SMART = re.compile(r"^std::(unique_ptr|shared_ptr|weak_ptr)<")
VIEW = re.compile(r"^std::(span<|basic_string_view<|string_view$|reference_wrapper<|ranges::)|iterator|^std::subrange")


def kind(t):
    t = bare(t)
    return t if VEC.match(t) else None


def bare(t):
    t = core.strip_cv((t or "").strip())
    while t.endswith("&"):
        t = core.strip_cv(t[:-1].strip())
    return core.strip_cv(re.sub(r"^(const |volatile )+", "", t))


def refers(t):
    """may an object of the type refer to something it does not own"""
    t = (t or "").strip()
    if t.endswith("&") or t.endswith("*") or t.endswith("* const"):
        return True
    t = bare(t)
    return bool(VIEW.search(t)) and not t.startswith("std::vector<")


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.fn = [f for f in prog.live() if lib(f)]
        self.holder = {}
        self.value = set()          # classes of which there are many objects: held by value, in containers, or in themselves
        for f in self.fn:
            for v, g in core.varinfo(f).items():
                if g.t and not g.t.endswith(("&", "*")):
                    self.value.add(bare(g.t))
                elif g.t.endswith("&&"):
                    self.value.add(bare(g.t))
        for c, r in prog.R.items():
            for x in r.get("fields", []):
                if (kind(self.ftype(x)) or SMART.match(bare(self.ftype(x)))) and re.search(r"(?<![\w:])" + re.escape(c) + r"(?![\w:])", self.ftype(x)):
                    self.value.add(c)
                if kind(self.ftype(x)):
                    for a in core.targs(bare(self.ftype(x))):
                        self.value.add(bare(a))
        self.many = {re.sub(r"<.*>", "", c) for c in self.value}
        self.ret, self.self_, self.grow = {}, {}, {}
        for f in self.fn:
            self.ret[f.key], self.self_[f.key], self.grow[f.key] = set(), set(), {}
        self.solve()

    def holds(self, t, depth=0):
        """does a class of the library carry pointers or views to what it does not own (results of look-ups)"""
        t = bare(t)
        if refers(t):
            return True
        if t.startswith(("std::pair<", "std::optional<", "std::tuple<")):
            return depth < 3 and any(self.holds(a, depth + 1) for a in core.targs(t))
        if not t.startswith("Moment::") or depth > 3:
            return False
        if t not in self.holder:
            self.holder[t] = False
            r = self.p.R.get(t)
            fs = (r or {}).get("fields", []) if r else []
            self.holder[t] = 0 < len(fs) <= 4 and any(refers(self.ftype(x)) for x in fs) and not any(kind(self.ftype(x)) for x in fs)
        return self.holder[t]

    def ftype(self, x):
        return x.get("t") if isinstance(x.get("t"), str) else ""

    # -- the container denoted by an expression ------------------------------------------------------------------
    def ident(self, f, i, depth=0):
        """set of (container, owner term)"""
        i = strip(f, i)
        if i is None or i < 0 or depth > 12:
            return set()
        n = f.N[i]
        k = n["k"]
        if k == "Mem":
            return {(("F", n.get("fd") or n["n"]), self.owner(f, n["c"][0] if n.get("c") else -1))}
        if k == "Ref" and n.get("v"):
            return self.var_ident(f, n["v"], depth)
        if k == "Call":
            if last(n) in ("move", "forward", "as_const", "ref", "cref") and n.get("a") and n.get("fn", "").startswith("std::"):
                return self.ident(f, n["a"][0], depth + 1)
            if n.get("op") in ("=", "+=") and n.get("o", -1) >= 0:
                return self.ident(f, n["o"], depth + 1)
            if last(n) in ("operator*", "value", "get", "operator->") and n.get("o", -1) >= 0:
                return self.ident(f, n["o"], depth + 1) if not SMART.match(bare(f.ty(n["o"]))) else {(("U", repr(core.Canon(f)(n["o"]))[:200]), None)}
            if n.get("f"):
                out = set()
                for t in self.p.targets(n):
                    for x, ow in self.self_.get(t, ()):
                        out |= self.up(f, n, x, ow, depth)
                return out
        if k == "Un" and n.get("op") in ("*", "&"):
            return self.ident(f, n["c"][0], depth + 1)
        if k == "Cond":
            return self.ident(f, n["c"][-1], depth + 1) | self.ident(f, n["c"][-2], depth + 1)
        return set()

    def var_ident(self, f, v, depth):
        g = core.varinfo(f).get(v)
        if g is None:
            p = self.p.F.get(f.get("parent", "")) if f.get("lambda") else None
            return self.var_ident(p, v, depth + 1) if p is not None and depth < 12 else set()
        if g.kind == "parm":
            for k, q in enumerate(f.params):
                if q["v"] == v:
                    return {(("P", k), None)} if core.is_ref(f.T[q["t"]]) or core.is_ptr(f.T[q["t"]]) else {(("L", v), None)}
        if core.is_ref(g.t) and g.init is not None and g.init >= 0:
            return self.ident(f, g.init, depth + 1)
        if core.is_ref(g.t) or core.is_ptr(g.t):
            return set()
        return {(("L", v), None)}

    def owner(self, f, i, depth=0):
        """a short term for the object, to tell two objects of a class apart"""
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.N[i]
        if n["k"] == "This":
            return ("this",)
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is not None and g.kind == "parm":
                return ("v", n["v"])
            if g is not None and core.is_ref(g.t) and g.kind == "local" and g.init is not None and g.init >= 0 and depth < 8:
                return self.owner(f, g.init, depth + 1)
            if g is not None and not core.is_ref(g.t) and not core.is_ptr(g.t) and g.kind == "local":
                return ("v", n["v"])
        if n["k"] == "Un" and n.get("op") == "*":
            return self.owner(f, n["c"][0], depth + 1) if depth < 8 else None
        if n["k"] == "Mem" and n.get("c") and depth < 8:
            o = self.owner(f, n["c"][0], depth + 1)
            return ("m", o, n.get("fd") or n["n"]) if o is not None else None
        if n["k"] == "Call" and (last(n) in ("operator*", "operator->") or n.get("op") in ("*", "->")) and (n.get("o", -1) >= 0 or n.get("a")):
            if n.get("o", -1) < 0:
                n = dict(n, o=n["a"][0])
            if re.match(r"std::unique_ptr<", bare(f.ty(n["o"]))):
                return ("owned", bare(f.ty(n["o"])))
            return self.owner(f, n["o"], depth + 1) if depth < 8 else None
        return None

    def up(self, f, n, x, ow, depth):
        """a container of the callee in terms of the caller"""
        if x[0] == "P":
            a = n.get("a", [])
            return self.ident(f, a[x[1]], depth + 1) if x[1] < len(a) else set()
        if x[0] == "F":
            o = None
            if ow == ("this",) and n.get("o", -1) >= 0:
                o = self.owner(f, n["o"])
            elif isinstance(ow, tuple) and ow[0] == "p" and ow[1] < len(n.get("a", [])):
                o = self.owner(f, n["a"][ow[1]])
            return {(x, o)}
        if x[0] == "L":
            return {(x, None)}
        return set()

    def out(self, f, s):
        """containers as the callers see them"""
        r = set()
        ps = {q["v"]: k for k, q in enumerate(f.params)}
        for x, ow in s:
            if x[0] == "L" and not f.get("lambda"):
                g = core.varinfo(f).get(x[1])
                if g is None or g.kind != "slocal":
                    continue
            while isinstance(ow, tuple) and ow[0] == "m":
                if root(ow)[0] == "v" and root(ow)[1] not in ps:
                    g = core.varinfo(f).get(root(ow)[1])
                    ow = root(ow) if g is not None and g.kind == "local" else None
                else:
                    ow = None
            if isinstance(ow, tuple) and ow[0] == "v":
                if ow[1] in ps:
                    ow = ("p", ps[ow[1]])
                else:
                    g = core.varinfo(f).get(ow[1])
                    if g is not None and g.kind == "local":
                        continue        # part of a local object
                    ow = None
            r.add((x, ow))
        return r

    # -- what a reference points into ------------------------------------------------------------------------------
    def into(self, f, i, depth=0):
        """set of (container, owner, container type, is an iterator)"""
        i = strip(f, i)
        if i is None or i < 0 or depth > 14:
            return set()
        n = f.N[i]
        k = n["k"]
        if k == "Ref" and n.get("v"):
            return self.var_into(f, n["v"], depth)
        if k == "Mem":
            if not n.get("c"):
                return set()
            return self.into(f, n["c"][0], depth + 1)
        if k == "Un" and n.get("op") in ("*", "&", "++", "--", "+"):
            return self.into(f, n["c"][0], depth + 1)
        if k == "Bin" and n.get("op") in ("+", "-", ","):
            return self.into(f, n["c"][0], depth + 1) | (self.into(f, n["c"][1], depth + 1) if n["op"] == "," else set())
        if k == "Sub":
            return self.into(f, n["c"][0], depth + 1)
        if k == "Cond":
            return self.into(f, n["c"][-1], depth + 1) | self.into(f, n["c"][-2], depth + 1)
        if k in ("Ctor", "InitList"):
            a = [x for x in (n.get("a") or n.get("c") or []) if f.N[x]["k"] != "DefArg"]
            if k == "Ctor" and n.get("sp") in ("copy", "move") and a:
                return self.into(f, a[0], depth + 1) if self.holds(f.ty(i)) else set()
            if not self.holds(f.ty(i)):
                return set()
            s = set()
            for x in a:
                c = kind(f.ty(x))
                if c and VIEW.search(bare(f.ty(i))):
                    s |= {(y, o, c, False) for y, o in self.ident(f, x, depth + 1)}
                elif refers(f.ty(x)) or self.holds(f.ty(x)):
                    s |= self.into(f, x, depth + 1)
            return s
        if k == "Call":
            l = last(n)
            o = n.get("o", -1)
            if o >= 0:
                t = f.ty(o)
                c = kind(t)
                if c and l in ELEM and not self.p.targets(n) or c and l in ELEM and c.startswith("Moment::SmallVector"):
                    s = {(y, w, c, l in ITER) for y, w in self.ident(f, o, depth + 1)}
                    return s | (self.into(f, o, depth + 1) if f.N[strip(f, o)]["k"] != "Ref" or refers(self.vt(f, strip(f, o))) else set())
                if SMART.match(bare(t)):
                    return set()
                if VIEW.search(bare(t)) or bare(t).endswith("*"):
                    return self.into(f, o, depth + 1) if refers(f.ty(i)) or n.get("op") or l in ELEM or l in ("subspan", "first", "last", "substr") else set()
                if bare(t).startswith("std::optional<") and l in ("value", "operator*", "operator->"):
                    return self.into(f, o, depth + 1)
            if n.get("fn", "").startswith("std::"):
                a = n.get("a", [])
                if not a:
                    return set()
                if l in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data"):
                    c = kind(f.ty(a[0]))
                    return ({(y, w, c, True) for y, w in self.ident(f, a[0], depth + 1)} if c else set()) | (self.into(f, a[0], depth + 1) if not c else set())
                if l in ("next", "prev", "find", "find_if", "find_if_not", "lower_bound", "upper_bound", "min_element", "max_element", "unique", "remove_if", "remove", "get", "move", "forward", "as_const", "addressof", "to_address", "ref", "cref") or n.get("op") in ("*", "[]", "+", "-", "++", "--", "->"):
                    return self.into(f, a[0] if o < 0 else o, depth + 1)
                if n.get("op") and o >= 0:
                    return self.into(f, o, depth + 1)
                return set()
            if n.get("f") and (refers(self.rt(f, i)) or self.holds(f.ty(i))):
                s = set()
                for t in self.p.targets(n):
                    for x, ow, c, it in self.ret.get(t, ()):
                        if x[0] == "A":         # points into what an argument points into
                            if x[1] < len(n.get("a", [])):
                                s |= self.into(f, n["a"][x[1]], depth + 1)
                            elif x[1] == -1 and o >= 0:
                                s |= self.into(f, o, depth + 1)
                            continue
                        s |= {(y, w, c, it) for y, w in self.up(f, n, x, ow, depth)}
                return s
        return set()

    def isreffield(self, n):
        fd = n.get("fd") or ""
        r = self.p.R.get(fd.rsplit("::", 1)[0])
        if not r:
            return n.get("t_ref", False)
        t = next((self.ftype(x) for x in r.get("fields", []) if x.get("n") == fd.rsplit("::", 1)[-1]), "")
        return t.endswith("&")

    def rt(self, f, i):
        """the type a call gives, with its reference"""
        n = f.N[i]
        if n["k"] != "Call":
            return f.ty(i)
        for t in self.p.targets(n):
            h = self.p.F.get(t)
            if h is not None:
                return self.rtype(h)
        t = f.ty(i)
        if n.get("op") in ("*", "[]", "=", "+=", "-=", "->") or last(n) in ("at", "front", "back", "value", "emplace_back", "get", "move", "forward", "as_const", "operator*", "operator[]"):
            return t + " &"
        return t

    def vt(self, f, i):
        g = core.varinfo(f).get(f.N[i].get("v"))
        return g.t if g is not None and g.t else ""

    def var_into(self, f, v, depth):
        g = core.varinfo(f).get(v)
        if g is None:
            p = self.p.F.get(f.get("parent", "")) if f.get("lambda") else None
            return self.var_into(p, v, depth + 1) if p is not None and depth < 12 else set()
        if v in binds(f):
            i, k = binds(f)[v]
            d = f.N[strip(f, i)]
            return self.into(f, i, depth + 1) if refers(g.t) or self.byref(f, v) else set()
        if g.kind == "parm":
            for k, q in enumerate(f.params):
                if q["v"] == v and (refers(f.T[q["t"]]) or self.holds(f.T[q["t"]])):
                    return {(("A", k), None, "", False)}
            return set()
        if g.rangevar is not None:
            if not refers(g.t):
                return set()
            r = f.N[g.rangevar]["range"]
            c = kind(f.ty(r))
            return ({(y, w, c, False) for y, w in self.ident(f, r, depth + 1)} if c else set()) | self.into(f, r, depth + 1)
        if not (refers(g.t) or self.holds(g.t)):
            return set()
        s = set()
        if g.init is not None and g.init >= 0:
            s |= self.into(f, g.init, depth + 1)
        return s

    def byref(self, f, v):
        for i in f.all_nodes():
            if f.N[i]["k"] == "Decl":
                for x in f.N[i]["vars"]:
                    if any(b["v"] == v for b in x.get("binds", [])):
                        return f.T[x["t"]].endswith("&")
        return False

    # -- growth -------------------------------------------------------------------------------------------------------------
    def direct(self, f):
        """(node, containers, method, container type)"""
        d = f._memo.get("c21direct")
        if d is None:
            d = f._memo["c21direct"] = []
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("o", -1) >= 0 and not n.get("mconst"):
                    c = kind(f.ty(n["o"]))
                    l = last(n)
                    if n.get("op") in ("=", "+="):
                        l = "operator" + n["op"]
                    if c and (l in GROW or l in DROP):
                        d.append((i, n["o"], l, c))
                elif n["k"] == "Call" and n.get("fn") == "std::swap" and n.get("a"):
                    for a in n["a"]:
                        if kind(f.ty(a)):
                            d.append((i, a, "swap", kind(f.ty(a))))
                elif n["k"] == "Assign" and n.get("op") == "=" and kind(f.ty(n["c"][0])):
                    d.append((i, n["c"][0], "operator=", kind(f.ty(n["c"][0]))))
        return d

    def solve(self):
        calls = {}
        for f in self.fn:
            calls[f.key] = [(i, f.N[i], self.p.targets(f.N[i])) for i in f.all_nodes() if f.N[i]["k"] in ("Call", "Ctor") and self.p.targets(f.N[i])]
        self.calls = calls
        for _ in range(4):
            ch = False
            for f in self.fn:
                if not f.get("ctor"):
                    s = set()
                    q = set()
                    for r in f.all_nodes():
                        if f.N[r]["k"] == "Return" and f.kids(r):
                            e = f.kids(r)[0]
                            t = self.rtype(f)
                            if t and (refers(t) or self.holds(t)):
                                s |= self.into(f, e)
                            if t.endswith("&") and kind(t):
                                q |= self.ident(f, e)
                    s2 = set()
                    for x, ow, c, it in s:
                        if x[0] == "A":
                            s2.add((x, ow, c, it))
                        else:
                            for y, o2 in self.out(f, {(x, ow)}):
                                s2.add((y, o2, c, it))
                    q = self.out(f, q)
                    if s2 - self.ret[f.key] or q - self.self_[f.key]:
                        self.ret[f.key] |= s2
                        self.self_[f.key] |= q
                        ch = True
            if not ch:
                break
        self.own = {k for k in self.ret if any(x[0] == "F" and ow == ("this",) for x, ow, c, it in self.ret[k]) or any(x[0] == "F" and ow == ("this",) for x, ow in self.self_[k])}
        for _ in range(6):
            more = {f.key for f in self.fn if f.key not in self.own and not f.get("ctor") and self.rtype(f).endswith(("&", "*")) and any(
                f.N[r]["k"] == "Return" and f.kids(r) and mine(self, f, f.kids(r)[0], self.rtype(f).endswith("&")) for r in f.all_nodes())}
            if not more:
                break
            self.own |= more
        for f in self.fn:
            for i, o, l, c in self.direct(f):
                for x, ow in self.out(f, self.ident(f, o)):
                    self.grow[f.key].setdefault((x, ow), set()).add((l, c))
        for _ in range(12):
            ch = False
            for f in self.fn:
                g = self.grow[f.key]
                for i, n, ts in calls[f.key]:
                    for t in ts:
                        h = self.p.F[t]
                        if n["k"] == "Ctor":
                            continue
                        for (x, ow), how in list(self.grow.get(t, {}).items()):
                            for y in self.out(f, self.up(f, n, x, ow, 0)):
                                w = g.setdefault(y, set())
                                if how - w:
                                    w |= how
                                    ch = True
                for lk in self.p.lambdas_of.get(f.key, []):
                    for y, how in list(self.grow.get(lk, {}).items()):
                        for z in self.out(f, {y}):
                            w = g.setdefault(z, set())
                            if how - w:
                                w |= how
                                ch = True
            if not ch:
                break

    def rtype(self, f):
        t = f.get("rt")
        return f.T[t] if isinstance(t, int) and 0 <= t < len(f.T) else (t or "")

    def events(self, f):
        """(node, container, owner, {(method, type)}) growth at a node of f"""
        e = f._memo.get("c21ev")
        if e is None:
            e = f._memo["c21ev"] = []
            for i, o, l, c in self.direct(f):
                for x, ow in self.ident(f, o):
                    e.append((i, x, ow, {(l, c)}))
            for i, n, ts in self.calls[f.key]:
                if n["k"] == "Ctor":
                    continue
                for t in ts:
                    for (x, ow), how in list(self.grow.get(t, {}).items()):
                        for y, o2 in self.up(f, n, x, ow, 0):
                            e.append((i, y, o2, how))
        return e


def ends(how, ctype, it, via):
    """does one of the changes end or move the element (or the iterator)"""
    for l, c in how:
        if STABLE.match(c):
            if l in ("clear", "operator="):
                return l
            continue
        if c.startswith("std::deque<"):
            if l in ("clear", "operator=", "assign", "resize", "erase") or it and l in GROW:
                return l
            continue
        if l in GROW or l in DROP:
            return l
    return None


def root(o):
    while o[0] == "m":
        o = o[1]
    return o


def distinct(X, f, x, a, b):
    """a: owner of what is referred to, b: owner of what grows"""
    if a is None or b is None:
        if x[0] == "F" and x[1].rsplit("::", 1)[0] in X.many:
            return True     # some other object of a class of which there are many
    if a is None:
        return False
    if b is None:
        r = root(a)
        g = core.varinfo(f).get(r[1]) if r[0] == "v" else None
        return g is not None and (g.kind == "local" or g.kind == "parm" and (not core.is_ref(g.t) or g.t.startswith("const ")))
    return a != b


def uses(f, v):
    return [i for i in f.all_nodes() if f.N[i]["k"] == "Ref" and f.N[i].get("v") == v]


def redefs(f, v):
    """nodes after which the variable is another one"""
    out = []
    g = core.varinfo(f).get(v)
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Assign" and n.get("op") == "=" and f.N[strip(f, n["c"][0])].get("v") == v and f.N[strip(f, n["c"][0])]["k"] == "Ref":
            out.append(i)
        elif n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("v") == v and f.N[strip(f, n["o"])]["k"] == "Ref":
            out.append(i)
        elif n["k"] == "Decl" and any(x["v"] == v or any(b["v"] == v for b in x.get("binds", [])) for x in n["vars"]):
            out.append(i)
    return out


def check(prog, rep, tier):
    X = Ctx(prog)
    n = 0
    for f in X.fn:
        invalid(X, f, rep)
        erased(X, f, rep)
        loops(X, f, rep)
        returned(X, f, rep)
        kept(X, f, rep)
        temporaries(X, f, rep)
    locked(X, rep)


def vars_of(f):
    for v, g in core.varinfo(f).items():
        if g.kind == "parm":
            continue
        yield v, g


def erased(X, f, rep):
    """an element taken out of its container: neither the iterator nor a reference made from it is used afterwards"""
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Call" or last(n) not in ("erase", "extract") or n.get("o", -1) < 0 or not kind(f.ty(n["o"])) or len(n.get("a", [])) != 1:
            continue
        a = strip(f, n["a"][0])
        while f.N[a]["k"] in ("Call", "Ctor") and (f.N[a].get("a") or f.N[a].get("o", -1) >= 0) and VIEW.search(bare(f.ty(a))) and not f.N[a].get("op") and not (last(f.N[a]) in ELEM):
            a = strip(f, f.N[a]["a"][0] if f.N[a].get("a") else f.N[a]["o"])
        if f.N[a]["k"] != "Ref" or not f.N[a].get("v") or not VIEW.search(bare(f.ty(a))):
            continue
        v = f.N[a]["v"]
        group = {v}
        for w, g in core.varinfo(f).items():
            if g.init is not None and g.init >= 0 and g.t.endswith(("&", "*")) and any(f.N[j]["k"] == "Ref" and f.N[j].get("v") in group for j in f.walk(g.init)) and derived(f, g.init, v):
                group.add(w)
        inside = set(f.walk(i))
        bad = None
        for w in sorted(group):
            rd = set(redefs(f, w))
            # the assignment of the result of the erasure gives the iterator a new place
            if any(i in set(f.walk(r)) and f.N[r]["k"] != "Decl" for r in rd) and w == v:
                continue
            for u in uses(f, w):
                if u in inside or any(u in lhs(f, r) for r in rd):
                    continue
                if path.reach(f, i, u, rd):
                    bad = (w, u)
                    break
            if bad:
                break
        rep.add(not bad, "erased", "%s|%s" % (f.short, pp.ex(f, n["o"])[:40]), f.loc(i), "" if not bad else
                "%s uses `%s` after `%s` has taken the element out" % (f.short, bad[0].split("#")[0], pp.ex(f, i)[:60]))


def derived(f, i, v):
    """the expression is a part of what the iterator refers to (and not a value computed from it)"""
    for _ in range(12):
        i = strip(f, i)
        n = f.N[i]
        if n["k"] == "Ref":
            return n.get("v") == v
        if n["k"] in ("Mem", "Un") and n.get("c"):
            i = n["c"][0]
        elif n["k"] == "Call" and n.get("op") in ("*", "->"):
            i = n["o"] if n.get("o", -1) >= 0 else n["a"][0]
        else:
            return False
    return False


def lhs(f, r):
    """nodes of the left side of an assignment"""
    n = f.N[r]
    if n["k"] == "Assign":
        return set(f.walk(n["c"][0]))
    if n["k"] == "Call" and n.get("o", -1) >= 0:
        return set(f.walk(n["o"]))
    return set()


def name(x):
    return str(x[1]).replace("Moment::", "").split("#")[0]


def invalid(X, f, rep):
    ev = X.events(f)
    for v, g in sorted(vars_of(f), key=lambda q: q[0]):
        s = {z for z in X.var_into(f, v, 0) if z[0][0] != "A"}
        if not s:
            continue
        us = uses(f, v)
        rd = redefs(f, v)
        for x, ow, c, it in sorted(s, key=repr):
            bad = None
            for i, y, o2, how in ev:
                if y != x or distinct(X, f, x, ow, o2):
                    continue
                e = ends(how, c, it or "iterator" in (g.t or ""), None)
                if not e:
                    continue
                if g.rangevar is not None and not any(j == i for j in f.walk(f.N[g.rangevar]["body"])):
                    continue
                for u in us:
                    if u in set(f.walk(i)):
                        if path.reach(f, i, i, rd) and g.rangevar is None:      # the next pass of a loop
                            bad = (i, u, e)
                            break
                        continue
                    if path.reach(f, i, u, rd):
                        bad = (i, u, e)
                        break
                if bad:
                    break
            rep.add(not bad, "invalidated", "%s|%s|%s" % (f.short, v.split("#")[0], name(x)), f.loc(bad[1]) if bad else f.loc(g.decl if g.decl is not None else f.body), "" if not bad else
                    "%s uses `%s`, which refers into %s, after `%s` may have moved or ended it" % (f.short, v.split("#")[0], name(x), pp.ex(f, bad[0])[:60]))


def loops(X, f, rep):
    for l in f.all_nodes():
        n = f.N[l]
        if n["k"] != "RangeFor":
            continue
        c = kind(f.ty(n["range"]))
        if not c:
            continue
        ids = X.ident(f, n["range"])
        body = set(f.walk(n["body"]))
        bad = None
        for i, y, o2, how in X.events(f):
            if i not in body:
                continue
            for x, ow in ids:
                if x == y and not distinct(X, f, x, ow, o2) and ends(how, c, True, None):
                    w = [j for j in f.walk(n["body"]) if f.N[j]["k"] not in ("Block",)]
                    if any(path.reach(f, i, j) for j in w if j not in set(f.walk(i)) and loops_back(f, l, i, j)):
                        bad = i
        rep.add(bad is None, "loop", "%s|%s" % (f.short, pp.ex(f, n["range"])[:40]), f.loc(l), "" if bad is None else
                "%s goes through `%s` and changes it on the way by `%s`" % (f.short, pp.ex(f, n["range"])[:40], pp.ex(f, bad)[:60]))


def loops_back(f, l, i, j):
    """can the loop take another pass after node i"""
    n = f.N[l]
    first = None
    for x in f.walk(n["body"]):
        if path._pos(f, x) is not None:
            if first is None or path.reach(f, x, i) or x == i:
                first = x
                if path.reach(f, i, x):
                    return True
    return False


def returned(X, f, rep):
    t = X.rtype(f)
    if f.get("ctor") or not (refers(t) or X.holds(t)):
        return
    for r in f.all_nodes():
        if f.N[r]["k"] != "Return" or not f.kids(r):
            continue
        e = f.kids(r)[0]
        bad = None
        for x, ow, c, it in X.into(f, e):
            if x[0] == "L":
                g = core.varinfo(f).get(x[1])
                if g is not None and g.kind in ("local", "parm") and g.decl is not None or g is not None and g.kind == "parm":
                    bad = x[1].split("#")[0]
        d = denotes(X, f, e, t)
        bad = bad or d
        rep.add(not bad, "returned", "%s|%s" % (f.short, pp.ex(f, e)[:40]), f.loc(r), "" if not bad else "%s returns something that refers to `%s`, which ends with the call" % (f.short, bad))


def denotes(X, f, e, t, depth=0):
    """name of the local object whose address or reference is the value"""
    if not (t.endswith("&") or t.endswith("*") or VIEW.search(bare(t))):
        return None
    isref = t.endswith("&")
    i = strip(f, e)
    while i is not None and i >= 0 and depth < 12:
        depth += 1
        n = f.N[i]
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is None:
                return None
            if g.kind == "slocal":
                return None
            pt = g.t or ""
            if core.is_ref(pt) or refers(pt):
                if core.is_ref(pt) and g.kind == "local" and g.init is not None and g.init >= 0 and isref:
                    i = strip(f, g.init)
                    if f.N[i]["k"] in ("Call", "Ctor", "InitList") and not lval(X, f, i):
                        return n["v"].split("#")[0]
                    continue
                return None
            if not isref:
                return None
            return n["v"].split("#")[0] if g.kind in ("local", "parm") else None
        if n["k"] == "Mem" and n.get("c") and not n.get("arrow"):
            i = strip(f, n["c"][0])
            continue
        if n["k"] == "Un" and n.get("op") == "&":
            isref = True
            i = strip(f, n["c"][0])
            continue
        if n["k"] == "Call" and n.get("o", -1) >= 0 and any(t in X.own for t in X.p.targets(n)) and not f.ty(n["o"]).endswith("*"):
            o = n["o"]
            while f.N[o]["k"] in ("Cast", "Paren", "Expr", "Clean", "Bind", "Mat") and len(f.N[o].get("c", [])) == 1:
                o = f.N[o]["c"][0]
            if f.N[o]["k"] in ("Call", "Ctor", "InitList") and not lval(X, f, o) and not refers(X.rt(f, o)) and bare(f.ty(o)).startswith("Moment::"):
                return pp.ex(f, o)[:40]
            isref = True
            i = strip(f, o)
            continue
        return None
    return None


def mine(X, f, i, isref):
    """does the expression denote (or point to) a part of the object itself"""
    for _ in range(12):
        i = strip(f, i)
        if i is None or i < 0:
            return False
        n = f.N[i]
        if n["k"] == "This":
            return True
        if n["k"] == "Mem" and n.get("c"):
            if not isref or f.ty(i).endswith("*") and not isref:
                return False
            b = strip(f, n["c"][0])
            if f.N[b]["k"] == "This":
                return not X.isreffield(n)
            if f.ty(b).endswith("*") or X.isreffield(n):
                return False
            i = b
            continue
        if n["k"] == "Un" and n.get("op") == "&":
            isref = True
            i = n["c"][0]
            continue
        if n["k"] == "Un" and n.get("op") == "*":
            if f.N[strip(f, n["c"][0])]["k"] == "This":
                return True
            return False
        if n["k"] == "Call" and n.get("o", -1) >= 0 and any(t in X.own for t in X.p.targets(n)):
            if f.ty(n["o"]).endswith("*") and f.N[strip(f, n["o"])]["k"] != "This":
                return False
            isref = True
            i = n["o"]
            continue
        return False
    return False


def lval(X, f, i):
    n = f.N[i]
    if n["k"] in ("Ref", "Mem", "Sub", "This"):
        return True
    if n["k"] == "Un":
        return n.get("op") in ("*", "++", "--")
    return n["k"] == "Call" and X.rt(f, i).endswith("&")


def kept(X, f, rep):
    if not f.get("ctor"):
        return
    for it in f.get("inits", []):
        fd = it.get("fd")
        if not fd or it["i"] is None or it["i"] < 0:
            continue
        r = X.p.R.get(f.get("cls") or "") or {}
        ft = next((X.ftype(x) for x in r.get("fields", []) if x.get("n") == fd.rsplit("::", 1)[-1]), None)
        if ft is None or not refers(ft):
            continue
        bad = None
        i = strip(f, it["i"])
        n = f.N[i]
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is not None and g.kind == "parm" and not refers(g.t) and ft.endswith("&"):
                bad = n["v"].split("#")[0]
        for x, ow, c, q in X.into(f, i):
            if x[0] == "L":
                bad = x[1].split("#")[0]
        rep.add(not bad, "kept", "%s|%s" % (f.short, fd.rsplit("::", 1)[-1]), f.loc(it["i"]), "" if not bad else "%s keeps a reference to its parameter `%s`, which ends with the call" % (f.short, bad))


def temporaries(X, f, rep):
    """a reference or view bound to the inside of a temporary"""
    for v, g in sorted(vars_of(f), key=lambda q: q[0]):
        if g.rangevar is not None:
            i = f.N[g.rangevar]["range"]
            own = True
        elif g.init is not None and g.init >= 0 and refers(g.t):
            i = g.init
            own = False
        else:
            continue
        j = strip(f, i)
        n = f.N[j]
        bad = None
        if n["k"] == "Call" and n.get("o", -1) >= 0 and (lval(X, f, j) or refers(X.rt(f, j))) or n["k"] == "Ctor" and VIEW.search(bare(f.ty(j))) and n.get("a"):
            o = n["o"] if n["k"] == "Call" else n["a"][0]
            while f.N[o]["k"] in ("Cast", "Paren", "Expr", "Clean", "Bind", "Mat") and len(f.N[o].get("c", [])) == 1:
                o = f.N[o]["c"][0]
            m = f.N[o]
            if (m["k"] == "Call" and not lval(X, f, o) and not (m.get("fn") or "").startswith("std::move") or m["k"] in ("Ctor",)) and kind(f.ty(o)) and not refers(X.rt(f, o)):
                bad = pp.ex(f, o)[:50]
            elif n["k"] == "Call" and m["k"] in ("Call", "Ctor", "InitList") and not lval(X, f, o) and not (m.get("fn") or "").startswith("std::") and not m.get("op") and not refers(X.rt(f, o)) and bare(f.ty(o)).startswith("Moment::"):
                if any(t in X.own for t in X.p.targets(n)):
                    bad = pp.ex(f, o)[:50]
        if n["k"] in ("Call", "Ctor"):
            rep.add(not bad, "temporary", "%s|%s" % (f.short, v.split("#")[0]), f.loc(i), "" if not bad else "%s binds `%s` to the inside of the temporary `%s`" % (f.short, v.split("#")[0], bad))


def locked(X, rep):
    """references that leave a lock"""
    for f in X.fn:
        t = X.rtype(f)
        if not t.endswith("&") and not t.endswith("*"):
            continue
        takes = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("get_read_lock", "get_write_lock") or f.N[i]["k"] == "Ctor" and re.match(r"std::(shared_lock|unique_lock|lock_guard|scoped_lock)<", bare(f.ty(i)))]
        if not takes:
            continue
        for x, ow, c, it in sorted(X.ret[f.key], key=repr):
            if x[0] != "F":
                continue
            grown = [g for g in X.fn for y, how in X.grow[g.key].items() if y[0] == x and ends(how, c, False, None) and not g.get("ctor")]
            rep.add(not grown, "published", "%s|%s" % (f.short, name(x)), f.loc(f.body), "" if not grown else
                    "%s gives out a reference into %s beyond its lock, and %s moves the elements" % (f.short, name(x), grown[0].short))
