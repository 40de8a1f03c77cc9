"""C10: a failed look-up is told apart from the valid first entry, before its result is used."""
import re
import core, path, pp

RULE = ("results of look-ups that can fail: iterators from find, pointers from functions that can return null, and signed numbers that can be -1; "
        "on every path an iterator is compared with the end, a pointer with null and a number with zero (the valid first entry included) before it is used to reach an element; "
        "no test of such a number counts entry zero as missing or a missing one as present")
TECHNIQUE = "must-facts dataflow over the control-flow graph on the results of look-ups; the sources of sentinels are derived from the program"
LEVEL = "proof"

FIND = re.compile(r"::(find|find_if|find_if_not|lower_bound|upper_bound)(<.*)?$|^std::ranges::__\w*find\w*_fn::operator\(\)$|^std::ranges::__(lower|upper)_bound_fn::operator\(\)$")


# a symbol not yet put into a table, and an iterator at its start: not results of look-ups
STATE = {"Moment::Symbol::id", "Moment::Algebraic::SubstringHashIter::_substring_start"}


def lib(f):
    return f.rel.startswith("cpp/lib_moment") and f.cfg is not None and f.body is not None and f.body >= 0


def strip(f, i):
    while i is not None and i >= 0:
        n = f.N[i]
        if n["k"] in ("Cast", "Paren", "Expr", "Clean", "Bind", "Mat") and len(n.get("c", [])) == 1:
            i = n["c"][0]
        elif n["k"] == "Ctor" and n.get("sp") in ("copy", "move") and len(n.get("a", [])) >= 1:
            i = n["a"][0]
        else:
            return i
    return i


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.fn = [f for f in prog.live() if lib(f)]
        self.nullable = {}
        self.FX = {}
        self.sources()

    def facts(self, f):
        if f.key not in self.FX:
            self.FX[f.key] = core.DeepFacts(f)
        return self.FX[f.key]

    def returns(self, f):
        for i in f.all_nodes():
            if f.N[i]["k"] == "Return" and f.kids(i):
                yield f.kids(i)[0]

    # -- functions that can return null / a negative number
    def sources(self):
        p = self.p
        self.null, self.neg, self.negf = set(), set(), set()
        self.pair, self.maxp, self.cont = {}, {}, set()
        # fields that start out negative
        for f in p.live():
            for it in (f.get("inits") or []):
                fd = it.get("fd")
                if fd and fd not in STATE and self.minus(f, it.get("i", -1)):
                    self.negf.add(fd)
        for f in self.fn:
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Assign" and n.get("op") == "=" and self.minus(f, n["c"][1]):
                    t = f.N[strip(f, n["c"][0])]
                    if t["k"] == "Mem" and (t.get("fd") or "").startswith("Moment") and t["fd"] not in STATE:
                        self.negf.add(t["fd"])
        ch = True
        while ch:
            ch = False
            for f in self.fn:
                rt = f.T[f.d["rt"]] if "rt" in f.d else ""
                if rt.endswith("*") and f.key not in self.null and any(self.may_null(f, r) for r in self.returns(f)):
                    self.null.add(f.key)
                    ch = True
                if signed(rt) and f.key not in self.neg and not self.threeway(f) and any(self.may_neg(f, r) for r in self.returns(f)):
                    self.neg.add(f.key)
                    ch = True
                if rt.startswith("std::pair<"):
                    for tab, pred in ((self.pair, self.may_neg), (self.maxp, self.may_max)):
                        for r in self.returns(f):
                            for x in self.parts(f, r):
                                for k, a in enumerate(x):
                                    if signed(f.ty(a)) and pred(f, a) and k not in tab.get(f.key, ()):
                                        tab.setdefault(f.key, set()).add(k)
                                        ch = True
                for i in f.all_nodes():
                    n = f.N[i]
                    # containers into which a missing number is put
                    c, v = None, None
                    if n["k"] == "Call" and n.get("o", -1) >= 0 and last(n) in ("emplace_back", "push_back", "insert", "emplace", "resize", "assign") and n.get("a") and n.get("fn", "").startswith("std::"):
                        c, v = n["o"], n["a"][-1]
                    elif n["k"] == "Assign" and n.get("op") == "=":
                        t = strip(f, n["c"][0])
                        m = f.N[t]
                        if m["k"] == "Sub" and m.get("c"):
                            c, v = m["c"][0], n["c"][1]
                        elif m["k"] == "Call" and m.get("op") == "[]" and m.get("o", -1) >= 0:
                            c, v = m["o"], n["c"][1]
                    if c is not None and v is not None and not isset(f, c):
                        k = self.place(f, c)
                        if k is not None and k not in self.cont and signed(f.ty(v)) and self.may_neg(f, v):
                            self.cont.add(k)
                            ch = True
                    if n["k"] == "Call" and re.match(r"std::(fill|fill_n)$", n.get("fn", "")) and n.get("a") and self.minus(f, n["a"][-1]):
                        for j in f.walk(n["a"][0]):
                            k = self.place(f, j)
                            if k is not None and re.match(r"(const )?std::(vector|deque|array)<", f.ty(j) or "") and k not in self.cont:
                                self.cont.add(k)
                                ch = True
                    if n["k"] == "Decl":
                        for d in n["vars"]:
                            if "i" in d and re.match(r"(const )?std::vector<(int|long|short)>", f.T[d["t"]]):
                                x = f.N[strip(f, d["i"])]
                                a = [y for y in x.get("a", []) if f.N[y]["k"] != "DefArg"]
                                k = (f.key, d["v"])
                                if x["k"] == "Ctor" and len(a) == 2 and self.minus(f, a[1]) and k not in self.cont:
                                    self.cont.add(k)
                                    ch = True

    def threeway(self, f):
        """a comparison says less, equal, greater by -1, 0, 1"""
        return any(f.N[strip(f, r)]["k"] == "Int" and int(f.N[strip(f, r)]["val"]) == 1 for r in self.returns(f)) or "compare" in f.short.lower()

    def place(self, f, c):
        """identity of a container: the field it is, or the local variable"""
        m = f.N[strip(f, c)]
        if m["k"] == "Mem" and (m.get("fd") or "").startswith("Moment"):
            return m["fd"]
        if m["k"] == "Ref" and m.get("v"):
            return (f.key, m["v"])
        return None

    def parts(self, f, r, depth=0):
        """the members a returned pair is made of"""
        r = strip(f, r)
        n = f.N[r]
        if n["k"] in ("Ctor", "InitList"):
            a = n.get("a") or n.get("c") or []
            if len(a) >= 2:
                return [a]
            return self.parts(f, a[0], depth + 1) if a and depth < 5 else []
        if n["k"] == "Call" and last(n) == "make_pair":
            return [n["a"]]
        if n["k"] == "Cond":
            return self.parts(f, n["c"][1], depth + 1) + self.parts(f, n["c"][2], depth + 1)
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is not None and g.init is not None and g.init >= 0 and depth < 5:
                return self.parts(f, g.init, depth + 1)
        return []

    def member(self, f, i):
        """(node of the call, member) where i is a member of a pair some call returned"""
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.N[i]
        if n["k"] == "Mem" and n.get("n") in ("first", "second") and n.get("c"):
            c = origin(f, n["c"][0])
            return (c, 0 if n["n"] == "first" else 1) if c is not None else None
        if n["k"] == "Ref" and n.get("v"):
            b = binds(f).get(n["v"])
            if b is not None:
                c = origin(f, b[0])
                return (c, b[1]) if c is not None else None
            g = core.varinfo(f).get(n["v"])
            if g is not None and g.kind != "parm" and g.init is not None and g.init >= 0 and not g.muts:
                return self.member(f, g.init)
        return None

    def may_max(self, f, i):
        i = strip(f, i)
        n = f.N[i]
        if n["k"] == "Call" and n.get("fn") == "std::numeric_limits::max":
            return True
        if n["k"] == "Cond":
            return self.may_max(f, n["c"][1]) or self.may_max(f, n["c"][2])
        m = self.member(f, i)
        return m is not None and any(m[1] in self.maxp.get(t, ()) for t in self.p.targets(f.N[m[0]]))

    def minus(self, f, i):
        i = strip(f, i)
        if i is None or i < 0:
            return False
        n = f.N[i]
        if n["k"] in ("DefInit", "DefArg") and n.get("c"):
            return self.minus(f, n["c"][0])
        if n["k"] == "InitList" and len(n.get("c", [])) == 1:
            return self.minus(f, n["c"][0])
        if n["k"] == "Int":
            return int(n["val"]) == -1
        if n["k"] == "Un" and n.get("op") == "-":
            c = f.N[strip(f, n["c"][0])]
            return c["k"] == "Int" and int(c["val"]) == 1
        return False

    def may_null(self, f, i):
        i = strip(f, i)
        n = f.N[i]
        if n["k"] == "Null":
            return True
        if n["k"] == "Cond":
            return self.may_null(f, n["c"][1]) or self.may_null(f, n["c"][2])
        if n["k"] == "Call":
            return any(t in self.null for t in self.p.targets(n))
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            return g is not None and g.init is not None and g.init >= 0 and not g.muts and self.may_null(f, g.init)
        return n["k"] == "Cast" and "dynamic" in n.get("ck", "")

    def may_neg(self, f, i):
        i = strip(f, i)
        n = f.N[i]
        if self.minus(f, i):
            return True
        if n["k"] == "Cond":
            return self.may_neg(f, n["c"][1]) or self.may_neg(f, n["c"][2])
        if n["k"] == "Call" and any(t in self.neg for t in self.p.targets(n)):
            return True
        m = self.member(f, i)
        if m is not None and any(m[1] in self.pair.get(t, ()) for t in self.p.targets(f.N[m[0]])):
            return True
        if n["k"] == "Mem":
            return n.get("fd") in self.negf
        c = n["c"][0] if n["k"] == "Sub" and n.get("c") else n["o"] if n["k"] == "Call" and (n.get("op") == "[]" or last(n) == "at") and n.get("o", -1) >= 0 else None
        if c is not None:
            return self.place(f, c) in self.cont
        if n["k"] == "Ref" and n.get("v"):
            g = core.varinfo(f).get(n["v"])
            if g is None or g.kind == "parm" or g.rangevar is not None:
                return False
            if g.init is not None and g.init >= 0 and self.may_neg(f, g.init):
                return not g.muts or not self.counted(f, n["v"])
        return False

    def counted(self, f, v):
        """a loop counter that merely starts or ends at -1"""
        return any(f.N[j]["k"] == "Un" and f.N[j].get("op") in ("++", "--") and f.N[strip(f, f.N[j]["c"][0])].get("v") == v for j in f.all_nodes())


def last(n):
    return re.sub(r"<.*", "", n.get("fn", "")).rsplit("::", 1)[-1]


def isset(f, c):
    return bool(re.match(r"(const )?std::(set|multiset|unordered_set)<", f.ty(c) or ""))


def binds(f):
    b = f._memo.get("c10binds")
    if b is None:
        b = f._memo["c10binds"] = {}
        for i in f.all_nodes():
            if f.N[i]["k"] == "Decl":
                for v in f.N[i]["vars"]:
                    for k, x in enumerate(v.get("binds", [])):
                        if "i" in v:
                            b[x["v"]] = (v["i"], k)
    return b


def signed(t):
    t = core.strip_cv(t or "")
    return t in ("int", "long", "short", "long long", "signed char")


def check(prog, rep, tier):
    X = Ctx(prog)
    rep.note("functions that can return null", ", ".join(sorted({prog.F[k].short for k in X.null})))
    rep.note("functions that can return -1", ", ".join(sorted({prog.F[k].short for k in X.neg})))
    rep.note("fields that can be -1", ", ".join(sorted(X.negf)))
    rep.note("functions that return a pair with a member that can be -1 or the largest number", ", ".join(sorted({prog.F[k].short for k in list(X.pair) + list(X.maxp)})))
    rep.note("containers that can hold -1", ", ".join(sorted(c if isinstance(c, str) else "%s %s" % (prog.F[c[0]].short, c[1].split("#")[0]) for c in X.cont)))
    reports(X, rep)
    for f in X.fn:
        absent(X, f, rep)
        renumbered(X, f, rep)
        iterators(X, f, rep)
        optionals(X, f, rep)
        pointers(X, f, rep)
        numbers(X, f, rep)
        polarity(X, f, rep)


def origin(f, i, depth=0):
    """the call an expression's value comes from"""
    i = strip(f, i)
    if i is None or i < 0:
        return None
    n = f.N[i]
    if n["k"] == "Ref" and n.get("v") and depth < 6:
        g = core.varinfo(f).get(n["v"])
        if g is not None and g.init is not None and g.init >= 0 and g.kind in ("local", None):
            return origin(f, g.init, depth + 1)
        return None
    if n["k"] == "Call":
        return i
    if n["k"] == "Ctor" and len([a for a in n.get("a", []) if f.N[a]["k"] != "DefArg"]) == 1:
        return origin(f, n["a"][0], depth + 1)
    if n["k"] == "InitList" and len(n.get("c", [])) == 1:
        return origin(f, n["c"][0], depth + 1)
    return None


def at_facts(F, i):
    """facts that hold where node i is evaluated (the nearest element of the graph at or below it)"""
    f = F.f
    w = f.cfg.where.get(i)
    if w is None:
        for j in f.walk(i):
            if j in f.cfg.where:
                return F.at(j)
        par = f.parents()
        x = i
        while x is not None:
            if x in f.cfg.where:
                return F.at(x)
            x = par.get(x)
        return None
    return F.at(i)


# look-ups that say that there is nothing by ...
SAYS = {
    "null": ("IndexTree::find_node",),
    "-1": ("Moment::Inflation::ExtendedMatrixIndexStorage::find", "Moment::VectorIndexStorage::find", "Moment::MapIndexStorage::find", "Moment::PolynomialIndexStorageBase::find", "Moment::MatrixIndices::find_index"),
    "max": ("Moment::SymbolTable::hash_to_index",),
    "pair": ("Moment::Symbol::basis_key", "Moment::SymbolTable::BasisView::operator()", "Moment::SymbolTable::BasisView::push_back"),
    "field": ("Moment::CollinsGisinEntry::real_index", "Moment::CollinsGisinEntry::symbol_id", "Moment::Symbol::img_index", "Moment::Symbol::real_index"),
}


def reports(X, rep):
    """what stands for `nothing found` still does"""
    for kind, names in SAYS.items():
        for nm in names:
            if kind == "field":
                cls, fd = nm.rsplit("::", 1)
                if not any(r["name"] == cls and any(x["n"] == fd for x in r["fields"]) for r in X.p.R.values()):
                    rep.note("gone", nm)
                    continue
                good = nm in X.negf
                rep.add(good, "says-missing", nm, "", "" if good else "`%s` no longer starts out as -1: an entry never filled in passes for a valid first one" % nm)
                continue
            fs = [f for f in X.fn if f.name == nm or f.name.endswith("::" + nm)]
            if kind == "null":
                fs = [f for f in fs if (f.T[f.d["rt"]] if "rt" in f.d else "").endswith("*")]
            if not fs:
                rep.note("gone", nm)
            for f in fs:
                good = f.key in {"null": X.null, "-1": X.neg, "max": X.maxp, "pair": X.pair}[kind]
                rep.add(good, "says-missing", "%s|%s" % (f.short, kind), f.loc(), "" if good else "%s no longer has a way to say that there is nothing" % f.short)


def renumbered(X, f, rep):
    """where an entry is marked missing on one turn of a loop, every turn settles whether it is"""
    got = {}
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Assign" and n.get("op") == "=":
            t = f.N[strip(f, n["c"][0])]
            if t["k"] == "Mem" and t.get("fd") in X.negf and t.get("c"):
                b = f.N[strip(f, t["c"][0])]
                g = core.varinfo(f).get(b.get("v")) if b["k"] == "Ref" else None
                if g is not None and g.rangevar is not None:
                    got.setdefault((b["v"], g.rangevar), {}).setdefault(t["fd"], []).append(i)
    for (v, lp), fds in got.items():
        if not any(X.minus(f, f.N[i]["c"][1]) for x in fds.values() for i in x):
            continue
        for fd, ws in sorted(fds.items()):
            good = all_turns(f, lp, ws)
            rep.add(good, "renumbered", "%s|%s" % (f.short, fd.rsplit("::", 1)[-1]), f.loc(ws[0]), "" if good else "%s leaves the old `%s` of an entry in place on some turns" % (f.short, fd.rsplit("::", 1)[-1]))


def all_turns(f, lp, ws):
    """every turn of the range loop passes one of the nodes (or leaves the loop)"""
    body = set(f.walk(f.N[lp]["body"]))
    w = f.cfg.where
    bb = {w[j][0] for j in body if j in w}
    if not bb:
        return True
    ev = {}
    for x in ws:
        q = path._pos(f, x)
        if q:
            ev[q[0]] = 1
    heads = [p for b in bb for p in f.cfg.pred[b] if p not in bb]
    starts = {b for b in bb if any(p not in bb for p in f.cfg.pred[b])}
    st, seen = [b for b in starts], set()
    while st:
        x = st.pop()
        if x in seen or x in ev:
            continue
        seen.add(x)
        for s in f.cfg.succ[x]:
            if s not in bb:
                if s != f.cfg.exit:
                    return False
                continue
            st.append(s)
    return True


def absent(X, f, rep):
    """what a look-up returns where its search ended without finding anything"""
    rt = f.T[f.d["rt"]] if "rt" in f.d else ""
    opt = rt.startswith("std::optional<") or rt.startswith("Moment::SymbolLookupResult")
    if not (opt or f.key in X.null or f.key in X.neg or f.key in X.maxp):
        return
    its = {}
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Decl":
            for v in n["vars"]:
                if v.get("i", -1) >= 0 and isfind(f, v["i"]):
                    its[v["v"]] = v
    if not its:
        return
    F = X.facts(f)
    cn = {F.cn(v["i"]): v for v in its.values()}
    for v in its:
        cn[("v", v)] = its[v]
    for i in f.all_nodes():
        if f.N[i]["k"] != "Return" or not f.kids(i):
            continue
        st = at_facts(F, i)
        if st is None:
            continue
        missed = [it for it in cn if any(endlit(a, it) and t for a, t in st)]
        if not missed:
            continue
        r = f.kids(i)[0]
        good = nothing(X, f, r, opt)
        rep.add(good, "says-missing", "%s|%s" % (f.short, pp.ex(f, r)[:60]), f.loc(i), "" if good else "%s returns `%s` where the search found nothing" % (f.short, pp.ex(f, r)[:60]))


def nothing(X, f, r, opt):
    r = strip(f, r)
    n = f.N[r]
    if n["k"] == "Call":        # asks elsewhere
        return True
    if opt:
        a = [y for y in n.get("a", []) if f.N[y]["k"] != "DefArg"] if n["k"] in ("Ctor", "InitList") else []
        if n["k"] == "Ctor" and not a or n["k"] == "InitList" and not n.get("c"):
            return True
        x = strip(f, a[0]) if a else r
        if "nullopt" in (f.ty(x) or "") or f.N[x]["k"] == "Null":
            return True
        if f.N[x]["k"] == "Ref" and f.N[x].get("v"):
            return True
        return False
    if X.may_null(f, r) or X.may_neg(f, r) or X.may_max(f, r):
        return True
    return any(X.may_max(f, y[0]) or X.may_neg(f, y[0]) for y in X.parts(f, r) if y)


def optionals(X, f, rep):
    """optional results and results of symbol look-ups"""
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Call" or n.get("op") not in ("->", "*") or n.get("o", -1) < 0 or n.get("a"):
            continue
        o = n["o"]
        t = core.strip_cv((f.ty(o) or "").rstrip("& "))
        opt, look = t.startswith("std::optional<"), t.startswith("Moment::SymbolLookupResult")
        if not opt and not look:
            continue
        c = origin(f, o)
        if opt and (c is None or not any(t in X.p.F for t in X.p.targets(f.N[c]))):
            continue
        F = X.facts(f)
        st = at_facts(F, i)
        p = F.cn(o)
        keys = (p, (".", p, "symbol"))
        good = st is None or any(a[0] == "ok" and tr and a[1] in keys for a, tr in st)
        if not good and look:
            good = any(tr is not (a[0] == "eq") and any(z in keys for z in a[1:] if isinstance(z, tuple)) and ("null",) in a[1:] for a, tr in st)
        if not good and f.N[strip(f, o)]["k"] == "Ref" and c is not None:
            good = asserted(f, c, i, name_of(f, o), r"(\.\s*(found|has_value)\s*\(|\.symbol|!=\s*null)")
        if not good and opt and f.N[strip(f, o)]["k"] == "Ref":
            good = checked_opt(X, f, o, i, p)
        rep.add(good, "optional", "%s|%s" % (f.short, pp.ex(f, o)[:60]), f.loc(i), "" if good else
                "%s uses `%s`, which can be without a value, without having checked it" % (f.short, pp.ex(f, o)[:70]))


def checked_opt(X, f, o, u, p):
    """path by path for an optional that is given a value where it has none"""
    g = core.varinfo(f).get(f.N[strip(f, o)].get("v"))
    if g is None or g.init is None:
        return False
    F = X.facts(f)
    gives = []
    for m in g.muts:
        k = f.N[m]
        r = k["c"][1] if k["k"] == "Assign" else k["a"][-1] if k["k"] == "Call" and k.get("op") == "=" and k.get("a") else None
        if r is None and not (k["k"] == "Call" and last(k) == "emplace"):
            continue
        if r is not None:
            x = strip(f, r)
            y = [a for a in f.N[x].get("a", []) if f.N[a]["k"] != "DefArg"] if f.N[x]["k"] == "Ctor" else []
            if y:
                x = y[0]
            if re.search("optional|nullopt", f.ty(x) or "optional"):
                continue
        gives.append(m)

    def ok(a, b):
        c = core.edge_cond(f, a)
        su = f.cfg.b[a]["s"]
        if c is None or su[0] == su[1]:
            return True
        lit = set()
        core.literals(F.cn(c), su[0] == b, lit)
        return not any(x[0] == "ok" and t and x[1] == p for x, t in lit)
    return not path.reach(f, g.init, u, gives, ok)


# a rule that binds one part of a symbol only is made for a symbol that has that part (C06)
INVARIANT = {"Moment::MomentRulebookToBasis::operator()"}

# two indices of one set of entries, always written together: what is found in one is in the other
PAIRED = {"Moment::MomentRulebook::rules": "Moment::MomentRulebook::rules_in_order"}


def endlit(a, it):
    """is the atom a comparison of the iterator with an end"""
    return a[0] == "eq" and it in a[1:] and endish(a[2] if a[1] == it else a[1])


def past(X, f, it, truth=False):
    """edges on which the comparison of the iterator with the end is decided the other way are the only ones left"""
    F = X.facts(f)

    def ok(p, x):
        c = core.edge_cond(f, p)
        if c is None:
            return True
        su = f.cfg.b[p]["s"]
        if su[0] == su[1]:
            return True
        lit = set()
        core.literals(F.cn(c), su[0] == x, lit)
        return not any(endlit(a, it) and t == truth for a, t in lit)
    return ok


def asserted(f, d, u, name, word):
    """the source says by an assertion between the two places that the look-up succeeds, and there is no test of it"""
    if tested(f, name):
        return False
    try:
        L = source(f.rel)
    except OSError:
        return False
    a, b = f.N[d].get("l") or 0, f.N[u].get("l") or 0
    return any(re.search(r"\bassert\s*\(.*\b%s\b.*%s" % (re.escape(name), word), x) for x in L[max(a - 1, 0):max(b, a)])


def tested(f, name):
    """does a branch of the function ask about the variable"""
    t = f._memo.get("c10tested")
    if t is None:
        t = f._memo["c10tested"] = set()
        for i in f.all_nodes():
            n = f.N[i]
            c = n["c"][0] if n["k"] == "Cond" else None
            if n["k"] == "If":
                c = n.get("cond", n["c"][0] if n.get("c") else None)
            if c is not None and c >= 0:
                t |= {f.N[j].get("n") or (f.N[j].get("v") or "?").split("#")[0] for j in f.walk(c) if f.N[j]["k"] == "Ref"}
        for b in (f.cfg.b if isinstance(f.cfg.b, dict) else range(len(f.cfg.b))):
            c = core.edge_cond(f, b)
            if c is not None:
                t |= {f.N[j].get("n") or (f.N[j].get("v") or "?").split("#")[0] for j in f.walk(c) if f.N[j]["k"] == "Ref"}
    return name in t


_src = {}


def source(rel):
    import ir
    if rel not in _src:
        with open(ir.REPO + "/" + rel, encoding="utf8", errors="replace") as h:
            _src[rel] = h.read().split("\n")
    return _src[rel]


def iterators(X, f, rep):
    for i in f.all_nodes():
        n = f.N[i]
        o = -1
        if n["k"] == "Call" and n.get("op") in ("->", "*") and (n.get("o", -1) >= 0) and not n.get("a"):
            o = n["o"]
        elif n["k"] == "Un" and n.get("op") == "*" or n["k"] == "Mem" and n.get("arrow"):
            o = n["c"][0] if n.get("c") else -1
        if o is None or o < 0:
            continue
        v = f.N[strip(f, o)]
        ds = finds(f, o)
        if not ds:
            continue
        F = X.facts(f)
        if not F.reachable(i) and i in f.cfg.where:
            continue
        it = F.cn(o)
        g = core.varinfo(f).get(v.get("v")) if v["k"] == "Ref" else None
        st = at_facts(F, i)
        for d in ds:
            c = origin(f, d)
            good = st is not None and any(endlit(a, it) and not t for a, t in st)
            if not good and g is not None:
                others = [x for x in g.muts if f.N[x]["k"] == "Assign" or f.N[x].get("op") == "="]
                others = [x for x in others if x != d and d not in f.walk(x)]
                good = not path.reach(f, d, i, others, past(X, f, it))
            if not good and v["k"] == "Ref":
                good = asserted(f, c, i, v.get("n", "?"), r"c?end\s*\(")
            if not good and st is not None:
                ob = f.N[c].get("o", -1)
                fd = f.N[strip(f, ob)].get("fd") if ob is not None and ob >= 0 else None
                if fd in PAIRED:
                    good = any(a[0] == "eq" and not t and any(PAIRED[fd].rsplit("::", 1)[-1] in repr(z) for z in a[1:]) and any(endish(z) for z in a[1:]) for a, t in st)
            rep.add(good, "iterator", "%s|%s" % (f.short, pp.ex(f, o)[:60]), f.loc(i), "" if good else
                    "%s uses the result of `%s` without having compared it with the end" % (f.short, pp.ex(f, c)[:70]))


def finds(f, o):
    """the places at which the iterator is given the result of a search"""
    x = strip(f, o)
    n = f.N[x]
    if n["k"] == "Ref" and n.get("v"):
        g = core.varinfo(f).get(n["v"])
        if g is None or g.kind == "parm":
            return []
        out = []
        if g.init is not None and g.init >= 0 and isfind(f, g.init):
            out.append(g.init)
        for m in g.muts:
            k = f.N[m]
            r = k["c"][1] if k["k"] == "Assign" else k["a"][-1] if k["k"] == "Call" and k.get("op") == "=" and k.get("a") else None
            if r is not None and isfind(f, r):
                out.append(r)
        return out
    return [x] if isfind(f, x) else []


def isfind(f, i):
    c = origin(f, i)
    return c is not None and f.N[c]["k"] == "Call" and bool(FIND.search(re.sub(r"<.*", "", f.N[c].get("fn", "")) or "?"))


def endish(t):
    return isinstance(t, tuple) and any(isinstance(x, tuple) and x and x[0] == "end" for x in core.subterms(t))


def pointers(X, f, rep):
    for i in f.all_nodes():
        n = f.N[i]
        o = -1
        if n["k"] == "Un" and n.get("op") == "*" or n["k"] == "Mem" and n.get("arrow"):
            o = n["c"][0] if n.get("c") else -1
        elif n["k"] == "Call" and n.get("o", -1) >= 0 and (f.ty(n["o"]) or "").rstrip(" const").endswith("*"):
            o = n["o"]
        if o is None or o < 0:
            continue
        c = origin(f, o)
        if c is None or not any(t in X.null for t in X.p.targets(f.N[c])):
            continue
        F = X.facts(f)
        st = at_facts(F, i)
        p = F.cn(o)
        good = st is None or (("ok", p), True) in st or any(a[0] == "eq" and not t and p in a[1:] for a, t in st)
        rep.add(good, "pointer", "%s|%s" % (f.short, pp.ex(f, o)[:60]), f.loc(i), "" if good else
                "%s uses the result of `%s`, which can be null, without having checked it" % (f.short, pp.ex(f, c)[:70]))


def numbers(X, f, rep):
    import c09_bounds as c9
    if f.name in INVARIANT:
        return
    seen = set()
    sites = [(i, ix) for i, ob, ix in c9.index_sites(f)]
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("a") and re.match(r"Moment::DynamicBitset\b.*::(set|unset|test|operator\[\])$", n.get("fn", "")):
            sites.append((i, n["a"][0]))
        elif n["k"] == "Call" and n.get("a") and n.get("o", -1) >= 0 and last(n) in ("emplace", "insert", "emplace_hint", "contains", "erase") and isset(f, n["o"]):
            sites.append((i, n["a"][-1]))
        elif n["k"] == "Ctor" and n.get("cls") == "Moment::Monomial" and n.get("a") and n.get("sp") not in ("copy", "move"):
            sites.append((i, n["a"][0]))
        elif n["k"] == "Call" and n.get("a") and last(n) == "emplace_back" and "Moment::Monomial" in (f.ty(n.get("o", -1)) or ""):
            sites.append((i, n["a"][0]))
        elif n["k"] == "Call" and len(n.get("a", [])) >= 3 and last(n) == "emplace_back" and "Triplet" in (f.ty(n.get("o", -1)) or ""):
            sites += [(i, n["a"][0]), (i, n["a"][1])]
        if n["k"] in ("Call", "Ctor") and n.get("a"):
            for t in X.p.targets(n):
                g = X.p.F.get(t)
                if g is not None and g.rel.startswith("cpp/lib_moment"):
                    sites += [(i, a) for a, q in zip(n["a"], g.params) if re.match(r"(const )?(unsigned|size_t)", g.T[q["t"]])]
        if n["k"] == "Cast" and n.get("ck") in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and re.match(r"(const )?(unsigned|size_t)", f.ty(i) or "") and n.get("c"):
            sites.append((i, n["c"][0]))
    for i, ix in sites:
        neg, mx = X.may_neg(f, ix), X.may_max(f, ix)
        if not neg and not mx or (i, ix) in seen or not signed(f.ty(ix)) and not f.N[strip(f, ix)]["k"] == "Ref":
            continue
        seen.add((i, ix))
        F = X.facts(f)
        st = at_facts(F, i)
        v = F.cn(ix)
        if v[0] == "int":
            continue
        if neg:
            good = st is None or c9.nonneg(st, v) or any(a[0] == "eq" and not t and v in a[1:] and ("int", -1) in a[1:] for a, t in st)
            if not good:
                good = checked(X, f, ix, i)
            what = "-1"
        else:
            good = st is None or any(a[0] == "eq" and not t and v in a[1:] and "numeric_limits" in repr(a) for a, t in st)
            what = "the largest number"
        if not good:
            m = X.member(f, ix)
            o = m[0] if m is not None else origin(f, ix)
            if o is not None and f.N[strip(f, ix)]["k"] == "Ref":
                good = asserted(f, o, i, name_of(f, ix), r"(max\s*\(|[<>!]=?)")
        rep.add(good, "number", "%s|%s" % (f.short, pp.ex(f, ix)[:60]), f.loc(i), "" if good else
                "%s uses `%s`, which can be %s for want of an entry, as if there were one, without having checked it" % (f.short, pp.ex(f, ix)[:70], what))


def name_of(f, i):
    n = f.N[strip(f, i)]
    return n.get("n") or (n.get("v") or "?").split("#")[0]


def checked(X, f, ix, u):
    """path by path for a variable that is assigned"""
    n = f.N[strip(f, ix)]
    g = core.varinfo(f).get(n.get("v")) if n["k"] == "Ref" else None
    F = X.facts(f)
    v = F.cn(ix)
    import c09_bounds as c9

    def ok(p, x):
        c = core.edge_cond(f, p)
        su = f.cfg.b[p]["s"]
        if c is None or su[0] == su[1]:
            return True
        lit = set()
        core.literals(F.cn(c), su[0] == x, lit)
        return not c9.nonneg(lit, v)
    if n["k"] == "Ref" and n.get("v") in binds(f) and not (g and g.muts):
        return not path.reach(f, binds(f)[n["v"]][0], u, [], ok)
    if g is None or g.init is None or not g.muts:
        return False
    ds = ([g.init] if X.may_neg(f, g.init) else [])
    for m in g.muts:
        k = f.N[m]
        r = k["c"][1] if k["k"] == "Assign" else None
        if r is not None and X.may_neg(f, r):
            ds.append(r)
    for d in ds:
        others = [x for x in g.muts if d not in f.walk(x)]
        if path.reach(f, d, u, others, ok):
            return False
    return True


def handed(X, f):
    """signed parameters that are used, as they are, as an index, in a function that can say that there is nothing"""
    if not (f.key in X.neg or f.key in X.null or f.key in X.maxp or f.key in X.pair):
        return set()
    import c09_bounds as c9
    ps = {q["v"] for q in f.params if signed(f.T[q["t"]])}
    out = set()
    for i, ob, ix in c9.index_sites(f):
        x = f.N[strip(f, ix)]
        if x["k"] == "Ref" and x.get("v") in ps:
            out.add(x["v"])
    return out


def polarity(X, f, rep):
    hs = handed(X, f)
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Bin" and n.get("op") in core.CMP:
            for a, b, flip in ((n["c"][0], n["c"][1], False), (n["c"][1], n["c"][0], True)):
                if f.N[strip(f, a)].get("v") in hs and f.N[strip(f, a)]["k"] == "Ref":
                    pass
                elif not X.may_neg(f, a) or X.minus(f, a):
                    continue
                k = f.N[strip(f, b)]
                val = -1 if X.minus(f, b) else int(k["val"]) if k["k"] == "Int" else None
                if val not in (0, 1, -1):
                    continue
                op = n["op"]
                if flip:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                okset = {0: ("<", ">="), 1: ("==", "!="), -1: ("==", "!=", ">", "<=")}[val]
                good = op in okset
                rep.add(good, "polarity", "%s|%s" % (f.short, pp.ex(f, a)[:60]), f.loc(i), "" if good else
                        "%s tests `%s %s %d`: -1 stands for 'missing' and 0 is a valid entry" % (f.short, pp.ex(f, a)[:60], op, val))
        elif n["k"] == "Cast" and core.strip_cv(f.ty(i) or "") == "bool" and n.get("c") and signed(f.ty(n["c"][0])) and X.may_neg(f, n["c"][0]):
            rep.bad("polarity", "%s|%s" % (f.short, pp.ex(f, n["c"][0])[:60]), f.loc(i), "%s uses `%s` as a truth value: -1 stands for 'missing' and 0 is a valid entry" % (f.short, pp.ex(f, n["c"][0])[:60]))
