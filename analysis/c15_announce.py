"""C15: what a matrix system creates is stored, indexed and announced, in that order, under one number."""
import re
import core, path, pp
from c10_missing import strip, last, lib, origin, binds

RULE = ("every path by which a matrix system comes by a matrix, a rulebook or new symbols: after the factory has put the matrix into the system the index is told, "
        "and after that the hook, once each, with the same description, number and matrix; the number is the position at which the matrix was put; positions are never removed; "
        "an index is looked up as it was filled in; where symbols are added by a method of a matrix system, the hook for new symbols follows on every path but the one on which the counts show that there are none")
TECHNIQUE = "must-happen path analysis over the control-flow graph with call-graph summaries, and equality of canonical values between creation, index and hook"
LEVEL = "proof"

SYS = "Moment::MatrixSystem"
HOOK = re.compile(r"::(on_new_\w+|on_rulebook_added)$")
NEWSYM = "on_new_symbols_registered"


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.fn = [f for f in prog.live() if lib(f)]
        self.family = set(prog.subclasses(SYS))
        self.CN = {}
        self.callers = {}
        for f in self.fn:
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] in ("Call", "Ctor"):
                    for t in prog.targets(n):
                        self.callers.setdefault(t, []).append((f, i))
        self.growers = self.closure({f.key for f in self.fn if any(True for _ in self.pushes(f))})
        self.symbols = self.closure({f.key for f in self.fn if self.adds_symbol(f)}, stop=self.responsible)

    def cn(self, f):
        if f.key not in self.CN:
            self.CN[f.key] = core.Canon(f)
        return self.CN[f.key]

    def cls(self, f):
        return f.get("cls") or ""

    def responsible(self, f):
        """announces new symbols itself"""
        while f is not None and f.get("lambda"):
            f = self.p.F.get(f.get("parent", ""))
        return f is not None and (self.cls(f) in self.family or self.cls(f) == "Moment::MatrixIndices")

    def closure(self, s, stop=None):
        out, st = set(s), list(s)
        while st:
            k = st.pop()
            if stop is not None and stop(self.p.F[k]):
                continue
            for f, i in self.callers.get(k, ()):
                if f.key in out or self.other(f, i):
                    continue
                out.add(f.key)
                st.append(f.key)
            f = self.p.F[k]
            # a lambda acts for the function it is written in only where it is called
        return out

    def other(self, f, i):
        """does the call work on the base of a derived system"""
        return any(re.search(r"base_(system|ms)", str(f.N[j].get("fn") or f.N[j].get("fd") or "")) for j in f.walk(i))

    def adds_symbol(self, f):
        if not self.cls(f).startswith("Moment::SymbolTable"):
            return False
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and last(n) in ("emplace_back", "push_back") and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd") == "Moment::SymbolTable::unique_sequences":
                return True
        return False

    def pushes(self, f):
        """(node, node of the matrix put in)"""
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or not n.get("a"):
                continue
            if n.get("fn") == SYS + "::push_back" and len(n["a"]) == 2:
                yield i, n["a"][1]
            elif last(n) in ("emplace_back", "push_back") and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd") == SYS + "::matrices":
                yield i, n["a"][0]

    def grows(self, f, i):
        n = f.N[i]
        return n["k"] in ("Call", "Ctor") and any(t in self.growers for t in self.p.targets(n)) and not self.other(f, i)


def check(prog, rep, tier):
    X = Ctx(prog)
    rep.note("matrix systems", ", ".join(sorted(c.rsplit("::", 1)[-1] for c in X.family)))
    creation(X, rep)
    for f in X.fn:
        number(X, f, rep)
        notify(X, f, rep)
        told(X, f, rep)
        permanent(X, f, rep)
        stray(X, f, rep)
    storage(X, rep)
    aliases(X, rep)
    rulebooks(X, rep)
    dictionary(X, rep)
    dependents(X, rep)


# -- MatrixIndices: factory, then index, then hook ------------------------------------------------------------------
def is_factory(f, n):
    return n["k"] == "Call" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd", "").endswith("MatrixIndices::matrixFactory") and (n.get("op") == "()" or n.get("fn", "").endswith("::operator()"))


def is_insert(f, n):
    return n["k"] == "Call" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd", "").endswith("MatrixIndices::indices") and last(n) == "insert"


def is_notify(f, n):
    return n["k"] == "Call" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd", "").endswith("MatrixIndices::matrixFactory") and last(n) == "notify"


KINDS = {"factory": is_factory, "insert": is_insert, "notify": is_notify}


class Steps:
    """the three steps as done by a function itself or by methods of the same class that it calls"""

    def __init__(self, X, fs):
        self.X, self.fs = X, {f.key: f for f in fs}
        self.does, self.must, self.pend, self.early = {}, {}, {}, {}
        for f in fs:
            self.direct(f)
        for _ in range(4):
            for f in fs:
                self.sum(f)

    def direct(self, f):
        self.does[f.key] = {k: [i for i in f.all_nodes() if t(f, f.N[i])] for k, t in KINDS.items()}
        self.must[f.key] = set()
        self.pend[f.key] = set()
        self.early[f.key] = False

    def events(self, f, kind, must=True):
        out = list(self.does[f.key][kind])
        for i, g in self.calls(f):
            if kind in self.must[g] or not must and self.has(g, kind):
                out.append(i)
        return out

    def has(self, g, kind, depth=0):
        return bool(self.does[g][kind]) or depth < 4 and any(self.has(h, kind, depth + 1) for _, h in self.calls(self.fs[g]) if h != g)

    def calls(self, f):
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call":
                for t in self.X.p.targets(n):
                    if t in self.fs:
                        yield i, t

    def sum(self, f):
        k = f.key
        for kind in KINDS:
            ev = self.events(f, kind)
            if ev and not path.escape(f, ev):
                self.must[k].add(kind)
        pend = set()
        src = list(self.does[k]["factory"]) + [i for i, g in self.calls(f) if self.pend[g]]
        for i in src:
            need = {"insert", "notify"} if i in self.does[k]["factory"] else set().union(*[self.pend[g] for j, g in self.calls(f) if j == i])
            for ev in need:
                if not path.after(f, i, [x for x in self.events(f, ev) if x != i]):
                    pend.add(ev)
        self.pend[k] = pend
        early = False
        for i in list(self.does[k]["notify"]) + [i for i, g in self.calls(f) if self.early[g]]:
            if not path.before(f, i, [x for x in self.events(f, "insert") if x != i]):
                early = True
        self.early[k] = early


def creation(X, rep):
    fs = [f for f in X.fn if X.cls(f) == "Moment::MatrixIndices"]
    S = Steps(X, fs)
    called = {t for f in fs for _, t in S.calls(f) if t != f.key}
    for f in fs:
        if not any(S.has(f.key, k) for k in KINDS):
            continue
        k = f.key
        tag = "%s|%s" % (f.short, kind_of(f))
        if f.name.endswith("::insert_alias"):
            alias(X, f, rep, tag)
            continue
        if k not in called or S.does[k]["factory"]:
            if k not in called or not S.pend[k]:
                if S.has(k, "factory"):
                    rep.add(not S.pend[k], "create-order", tag + "|complete", f.loc(f.body), "" if not S.pend[k] else
                            "%s lets a matrix be made and on some path does not %s" % (f.short, " or ".join({"insert": "enter it in the index", "notify": "announce it"}[e] for e in sorted(S.pend[k]))))
            if k not in called or not S.early[k]:
                if S.has(k, "notify"):
                    rep.add(not S.early[k], "create-order", tag + "|index first", f.loc(f.body), "" if not S.early[k] else "%s announces a matrix before it is in the index" % f.short)
        for kind in ("factory", "insert", "notify"):
            ev = S.events(f, kind, must=False)
            twice = [(a, b) for a in ev for b in ev if path.reach(f, a, b)]
            if ev:
                rep.add(not twice, "create-order", "%s|%s once" % (tag, kind), f.loc(ev[0]), "" if not twice else "%s can do '%s' twice for one matrix" % (f.short, kind))
        # one description, one number, one matrix
        cn = X.cn(f)
        fac = S.does[k]["factory"]
        for i in S.does[k]["insert"]:
            a = f.N[i]["a"]
            if fac and len(a) == 2:
                same(X, f, rep, tag + "|entered description", i, cn(a[0]), [cn(f.N[x]["a"][1]) for x in fac], "the index is told another description than the factory")
                same(X, f, rep, tag + "|entered number", i, cn(a[1]), [first(cn(x)) for x in fac], "the index is told another number than the factory gave")
        for i in S.does[k]["notify"]:
            a = f.N[i]["a"]
            if fac and len(a) == 4:
                same(X, f, rep, tag + "|announced description", i, cn(a[1]), [cn(f.N[x]["a"][1]) for x in fac], "the hook is told another description than the factory")
                same(X, f, rep, tag + "|announced number", i, cn(a[2]), [first(cn(x)) for x in fac] + [first(cn(x)) for x in S.does[k]["insert"]], "the hook is told another number than the factory gave")
                same(X, f, rep, tag + "|announced matrix", i, cn(a[3]), [second(cn(x)) for x in fac], "the hook is told another matrix than the factory made")
        if fac:
            for i in f.all_nodes():
                if f.N[i]["k"] == "Return" and f.kids(i) and any(path.reach(f, x, i) for x in fac):
                    a = pair(f, f.kids(i)[0])
                    if a is None:
                        continue
                    same(X, f, rep, tag + "|returned number", i, cn(a[0]), [first(cn(x)) for x in fac] + [first(cn(x)) for x in S.does[k]["insert"]], "another number is returned than the factory gave")
                    same(X, f, rep, tag + "|returned matrix", i, cn(a[1]), [second(cn(x)) for x in fac], "another matrix is returned than the factory made")
            # what is there already is not made again
            fi = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("find", "contains", "find_index") and ("indices" in (f.N[strip(f, f.N[i].get("o", -1))].get("fd") or "") or X.cls(f) == f.N[i].get("fn", "").rsplit("::", 1)[0])]
            for x in fac:
                good = bool(fi) and path.before(f, x, fi) and any(cn(f.N[j]["a"][-1]) == cn(f.N[x]["a"][1]) for j in fi) and absent(X, f, x, fi)
                if k not in called or fi:
                    rep.add(good, "create-order", tag + "|not made again", f.loc(x), "" if good else "%s makes a matrix without having found that there is none for the description" % f.short)


def absent(X, f, x, fi):
    """on every path to the making of the matrix the look-up was found to have failed"""
    F = core.DeepFacts(f)
    ts = [F.cn(j) for j in fi]
    vs = set()
    for v, g in core.varinfo(f).items():
        if g.init is not None and g.init >= 0 and origin(f, g.init) in fi:
            vs.add(("v", v))
    c = ts + list(vs)

    def ok(p, s):
        q = core.edge_cond(f, p)
        su = f.cfg.b[p]["s"]
        if q is None or su[0] == su[1]:
            return True
        lit = set()
        core.literals(F.cn(q), su[0] == s, lit)
        return not any(any(z in c for z in a[1:] if isinstance(z, tuple)) and lost(a, t, c) for a, t in lit)
    return not any(path.reach(f, j, x, (), ok) for j in fi)


def lost(a, t, c):
    """does the fact say that the look-up failed"""
    if a[0] in ("lt", "ltu"):
        if a[1] in c and a[2] == ("int", 0):
            return t
        if a[2] in c and a[1] == ("int", -1):
            return not t
    if a[0] == "eq" and ("int", -1) in a[1:]:
        return t
    return a[0] == "ok" and not t


def same(X, f, rep, key, i, got, want, msg):
    good = norm(got) in [norm(w) for w in want]
    rep.add(good, "same", key, f.loc(i), "" if good else "%s: %s" % (f.short, msg))


def plain(t):
    """without conversions"""
    while isinstance(t, tuple) and t and t[0] in ("cast", "conv") and len(t) > 1:
        t = t[-1]
    return t


def norm(t):
    """without conversions; the members of a pair by one name"""
    t = plain(t)
    if isinstance(t, tuple) and len(t) == 3 and t[0] == ".":
        return (".", norm(t[1]), {"<0>": "first", "<1>": "second"}.get(t[2], t[2]))
    return t


def first(t):
    return (".", t, "first")


def second(t):
    return (".", t, "second")


def pair(f, r):
    r = strip(f, r)
    n = f.N[r]
    for _ in range(4):
        a = [x for x in (n.get("a") or n.get("c") or []) if f.N[x]["k"] != "DefArg"] if n["k"] in ("Ctor", "InitList") else n.get("a", []) if n["k"] == "Call" and last(n) == "make_pair" else []
        if len(a) == 2:
            return a
        if len(a) != 1:
            return None
        r = strip(f, a[0])
        n = f.N[r]
    return None


def kind_of(f):
    m = re.search(r"MatrixIndicesI\w*?\d+(\w*?Factory)", f.key)
    return re.sub(r"^.*?([A-Z][A-Za-z]*Factory)$", r"\1", m.group(1)) if m else str(len(f.params))


def alias(X, f, rep, tag):
    cn = X.cn(f)
    ev = [i for i in f.all_nodes() if is_insert(f, f.N[i])]
    good = bool(ev) and not path.escape(f, ev)
    rep.add(good, "create-order", tag + "|alias", f.loc(f.body), "" if good else "%s can return without entering the description" % f.short)
    ps = [("v", q["v"]) for q in f.params]
    for i in ev:
        a = f.N[i]["a"]
        good = len(ps) >= 2 and plain(cn(a[0])) == ps[-2] and plain(cn(a[1])) == ps[-1]
        rep.add(good, "same", tag + "|alias", f.loc(i), "" if good else "%s enters something else than the description and number it was given" % f.short)


# -- the number of a matrix is its position ---------------------------------------------------------------------------
def matrices_size(f, i):
    n = f.N[i]
    return n["k"] == "Call" and last(n) == "size" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd") == SYS + "::matrices"


def number(X, f, rep):
    ps = list(X.pushes(f))
    if not ps:
        return
    cn = X.cn(f)
    gs = [i for i in f.all_nodes() if X.grows(f, i) and i not in [p[0] for p in ps]] + [p[0] for p in ps]
    for k, (i, m) in enumerate(ps):
        twice = [j for j, _ in ps if path.reach(f, i, j)]
        rep.add(not twice, "number", "%s|once#%d" % (f.short, k), f.loc(i), "" if not twice else "%s can put two matrices into the system under one number" % f.short)
        for r in f.all_nodes():
            if f.N[r]["k"] != "Return" or not f.kids(r) or not path.reach(f, i, r):
                continue
            x = strip(f, f.kids(r)[0])
            a = pair(f, x)
            off = a[0] if a else x if f.name == SYS + "::push_back" else None
            if off is None:
                continue
            good = position(X, f, off, i, gs)
            rep.add(good, "number", "%s|returned#%d" % (f.short, k), f.loc(r), "" if good else "%s returns `%s`, which need not be the position at which it put the matrix" % (f.short, pp.ex(f, off)[:60]))
            if a:
                good = thing(X, f, a[1], i, m, gs)
                rep.add(good, "number", "%s|matrix#%d" % (f.short, k), f.loc(r), "" if good else "%s returns `%s`, which need not be the matrix it put into the system" % (f.short, pp.ex(f, a[1])[:60]))


def value(f, i, depth=0):
    """the node whose value a variable that is never changed has"""
    i = strip(f, i)
    n = f.N[i]
    while n["k"] == "InitList" and len(n.get("c", [])) == 1:
        i = strip(f, n["c"][0])
        n = f.N[i]
    if n["k"] == "Ref" and n.get("v") and depth < 6:
        g = core.varinfo(f).get(n["v"])
        if g is not None and g.kind == "local" and g.init is not None and g.init >= 0 and not g.muts:
            return value(f, g.init, depth + 1)
    return i


def position(X, f, off, push, gs):
    v = value(f, off)
    n = f.N[v]
    if v == push:
        return True
    if n["k"] == "Call" and any(t in X.growers for t in X.p.targets(n)):
        return True         # a helper that puts in one matrix is judged itself
    if matrices_size(f, v):
        return path.before(f, push, [v]) and not any(path.reach(f, v, g, [push]) for g in gs if g != push)
    if n["k"] == "Bin" and n.get("op") == "-" and f.N[strip(f, n["c"][1])].get("val") in ("1", 1):
        s = value(f, n["c"][0])
        if matrices_size(f, s):
            return path.reach(f, push, s) and not any(path.reach(f, push, g, [s]) and path.reach(f, g, s) for g in gs if g != push) and not any(path.reach(f, s, p) for p in [push])
    return False


def thing(X, f, m, push, put, gs):
    cn = X.cn(f)
    t = plain(cn(m))
    if t == plain(cn(put)):
        return True
    for s in core.subterms(t):
        if s == plain(cn(put)) and t[0] in ("deref", "*", "call"):
            return True
    v = value(f, m)
    for j in f.walk(v):
        n = f.N[j]
        if n["k"] == "Call" and last(n) == "back" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd") == SYS + "::matrices":
            return path.reach(f, push, j) and not any(path.reach(f, push, g) and path.reach(f, g, j) for g in gs if g != push)
        if n["k"] == "Call" and n.get("fn") in (SYS + "::get", SYS + "::operator[]") or n["k"] == "Call" and n.get("op") == "[]" and f.N[strip(f, n.get("o", -1))].get("fd") == SYS + "::matrices":
            return bool(n.get("a")) and position(X, f, n["a"][0], push, gs)
    if f.N[v]["k"] == "Call" and any(x in X.growers for x in X.p.targets(f.N[v])):
        return True
    return False


# -- the hook gets what the notification got ---------------------------------------------------------------------------
def hooks(X, f):
    return [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and HOOK.search(f.N[i].get("fn", "")) and f.N[i]["fn"].rsplit("::", 1)[0] in X.family]


def notify(X, f, rep):
    if not f.name.endswith("Factory::notify") or len(f.params) != 4:
        return
    ev = hooks(X, f)
    cn = X.cn(f)
    good = bool(ev) and not path.escape(f, ev)
    rep.add(good, "hook", f.short + "|always", f.loc(f.body), "" if good else "%s can return without having called the hook" % f.short)
    twice = any(path.reach(f, a, b) for a in ev for b in ev)
    rep.add(not twice, "hook", f.short + "|once", f.loc(f.body), "" if not twice else "%s can call the hook twice" % f.short)
    for i in ev:
        ts = [plain(cn(a)) for a in f.N[i]["a"]]
        for k, q in enumerate(f.params):
            if k == 1:
                good = any(core.mentions(t, ("v", q["v"])) for t in ts)
            elif k == 0:
                continue
            else:
                good = ("v", q["v"]) in ts
            rep.add(good, "hook", "%s|%s" % (f.short, ("lock", "description", "number", "matrix")[k]), f.loc(i), "" if good else
                    "%s does not hand its %s on to the hook" % (f.short, ("lock", "description", "number", "matrix")[k]))


def stray(X, f, rep):
    """hooks are called only where something has been put in"""
    ev = [i for i in hooks(X, f) if not f.N[i]["fn"].endswith(NEWSYM)]
    if not ev:
        return
    top = f.name.rsplit("::", 1)[-1]
    for i in ev:
        h = f.N[i]["fn"].rsplit("::", 1)[-1]
        good = top == "notify" or top == h or h == "on_rulebook_added" and X.cls(f) == "Moment::RulebookStorage" or h == "on_new_dictionary"
        if not good:
            # a helper all of whose callers are allowed to
            cs = X.callers.get(f.key, [])
            good = bool(cs) and all(g.name.rsplit("::", 1)[-1] == "notify" or X.cls(g) == "Moment::RulebookStorage" for g, _ in cs)
        rep.add(good, "hook", "%s|%s called from" % (f.short, h), f.loc(i), "" if good else "%s calls %s although it has put nothing in; the matrix is announced twice" % (f.short, h))


# -- new symbols ---------------------------------------------------------------------------------------------------------
def table_size(X, f, i):
    n = f.N[i]
    return n["k"] == "Call" and last(n) == "size" and n.get("o", -1) >= 0 and "SymbolTable" in (f.ty(n["o"]) or "")


def teller(X, h):
    """a helper that is given the number of symbols from before (and perhaps after) a change and tells if there are more: positions of these parameters"""
    memo = X.__dict__.setdefault("_tellers", {})
    if h.key in memo:
        return memo[h.key]
    memo[h.key] = None
    ev = [i for i in h.all_nodes() if h.N[i]["k"] == "Call" and h.N[i].get("fn", "").endswith("::" + NEWSYM) and len(h.N[i].get("a", ())) == 3]
    if len(ev) != 1 or X.cls(h) not in X.family or h.name.endswith("::" + NEWSYM):
        return None
    par = {q["v"]: k for k, q in enumerate(h.params)}

    def what(i):
        v = value(h, strip(h, i))
        if table_size(X, h, v):
            return "now"
        n = h.N[strip(h, v)]
        return par.get(n.get("v")) if n["k"] == "Ref" else None
    o, w = [what(a) for a in h.N[ev[0]]["a"][1:]]
    if not isinstance(o, int) or w is None or w == o:
        return None

    def ok(p, s):
        c = core.edge_cond(h, p)
        su = h.cfg.b[p]["s"]
        if c is None or su[0] == su[1]:
            return True
        c, t = strip(h, c), su[0] == s
        while h.N[c]["k"] == "Un" and h.N[c].get("op") == "!":
            c, t = strip(h, h.N[c]["c"][0]), not t
        c = strip(h, value(h, c))
        n = h.N[c]
        if n["k"] != "Bin":
            return True
        a, b = what(n["c"][0]), what(n["c"][1])
        op = n["op"]
        if (a, b) == (o, w):
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        elif (a, b) != (w, o):
            return True
        return (op, t) not in ((">", False), ("!=", False), ("<=", True), ("==", True))
    if path.escape(h, ev, ok):
        return None
    memo[h.key] = (o, w if isinstance(w, int) else None)
    return memo[h.key]


def told(X, f, rep):
    if X.cls(f) not in X.family or f.get("ctor") or f.get("lambda") or f.name.endswith("::" + NEWSYM):
        return
    grow = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] not in ("Call", "Ctor") or X.other(f, i):
            continue
        ts = [t for t in X.p.targets(n) if t in X.symbols and not X.responsible(X.p.F[t])]
        lam = [t for t in X.p.targets(n) if X.p.F[t].get("lambda") and t in X.symbols]
        if n.get("fn", "").startswith("std::make_unique"):
            ts += [g for g in made(X, f, n) if g in X.symbols]
        if ts or lam:
            grow.append(i)
    if not grow:
        return
    ev = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn", "").endswith("::" + NEWSYM)]
    F = core.DeepFacts(f)
    sizes = [i for i in f.all_nodes() if table_size(X, f, i)]

    def count(i):
        v = value(f, i)
        return v if v in sizes else None
    for k, g in enumerate(grow):
        def ok(p, s):
            c = core.edge_cond(f, p)
            su = f.cfg.b[p]["s"]
            if c is None or su[0] == su[1]:
                return True
            return not unchanged(f, strip(f, c), su[0] == s, g)

        def unchanged(f, c, truth, g):
            n = f.N[c]
            if n["k"] == "Un" and n.get("op") == "!":
                return unchanged(f, strip(f, n["c"][0]), not truth, g)
            if n["k"] == "Ref":
                v = value(f, c)
                return v != c and unchanged(f, v, truth, g)
            if n["k"] != "Bin":
                return False
            a, b = count(n["c"][0]), count(n["c"][1])
            if a is None or b is None:
                return False
            op = n["op"]
            old = lambda x: path.before(f, g, [x]) and not path.reach(f, g, x)
            new = lambda x: path.reach(f, g, x)
            if old(b) and new(a):
                pass
            elif old(a) and new(b):
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            else:
                return False
            # new (op) old
            return (op, truth) in ((">", False), ("!=", False), ("<=", True), ("==", True))
        evg = list(ev)
        for i in f.all_nodes():
            n = f.N[i]
            for t in X.p.targets(n) if n["k"] == "Call" else ():
                w = teller(X, X.p.F[t]) if X.p.F[t] is not f else None
                if w is None or len(n.get("a", ())) <= w[0]:
                    continue
                o = count(n["a"][w[0]])
                m = None if w[1] is None else count(n["a"][w[1]])
                if o is not None and path.before(f, g, [o]) and not path.reach(f, g, o) and (w[1] is None or m is not None and path.reach(f, g, m) and not path.reach(f, m, g)):
                    evg.append(i)
        good = path.after(f, g, evg, ok)
        rep.add(good, "told", "%s|%s" % (f.short, pp.ex(f, g)[:50]), f.loc(g), "" if good else
                "%s adds symbols by `%s` and on some path does not tell that there are new ones" % (f.short, pp.ex(f, g)[:60]))
    for i in ev:
        a = f.N[i].get("a", [])
        if len(a) != 3:
            continue
        o, n = count(a[1]), count(a[2])
        good = o is not None and n is not None and all(path.before(f, g, [o]) and not path.reach(f, g, o) for g in grow if path.reach(f, g, i)) and not any(path.reach(f, n, g) for g in grow) \
            and any(path.reach(f, g, n) for g in grow)
        rep.add(good, "told", "%s|counts" % f.short, f.loc(i), "" if good else "%s does not hand the numbers of symbols from before and after the change to the hook" % f.short)


def made(X, f, n):
    """constructors that make_unique calls"""
    for t in X.p.targets(n):
        g = X.p.F.get(t)
        if g is not None:
            for i in g.all_nodes():
                if g.N[i]["k"] in ("Ctor", "New"):
                    yield from X.p.targets(g.N[i])
    # the library function has no body here: by the type made
    m = re.search(r"make_unique<(?:class |struct )?([\w:]+)", n.get("fn", "") + n.get("ft", ""))
    ty = m.group(1) if m else None
    if ty is None:
        t = f.T[n["t"]] if "t" in n else ""
        m = re.match(r"std::unique_ptr<(?:class |struct )?([\w:]+)", t)
        ty = m.group(1) if m else None
    if ty:
        for g in X.fn:
            if g.get("ctor") and X.cls(g) == ty:
                yield g.key


# -- positions are permanent ----------------------------------------------------------------------------------------------
SHRINK = ("erase", "pop_back", "clear", "resize", "insert", "emplace", "swap", "assign", "pop_front", "push_front", "emplace_front", "operator=")


def permanent(X, f, rep):
    for i in f.all_nodes():
        n = f.N[i]
        fd = None
        if n["k"] == "Call" and n.get("o", -1) >= 0 and (last(n) in SHRINK or n.get("op") == "="):
            fd = f.N[strip(f, n["o"])].get("fd")
        elif n["k"] == "Call" and re.match(r"std::(ranges::)?(swap|move|remove|remove_if|rotate|reverse|sort|exchange|erase|erase_if|stable_sort|unique|partition)$", n.get("fn", "")) or \
                n["k"] == "Call" and re.match(r"std::ranges::__\w+::operator\(\)", n.get("fn", "")):
            for a in n.get("a", []):
                for j in f.walk(a):
                    if f.N[j].get("fd") in (SYS + "::matrices", "Moment::RulebookStorage::rulebooks") and not re.search("unique_ptr<[^v]*$", f.ty(a) or ""):
                        fd = f.N[j]["fd"]
        if fd not in (SYS + "::matrices", "Moment::RulebookStorage::rulebooks"):
            continue
        good = False
        if n.get("fn", "").endswith("::pop_back"):
            own = [j for j in f.all_nodes() if f.N[j]["k"] == "Call" and last(f.N[j]) in ("emplace_back", "push_back") and f.N[strip(f, f.N[j].get("o", -1))].get("fd") == fd]
            good = bool(own) and path.before(f, i, own)
        rep.add(good, "permanent", "%s|%s" % (f.short, pp.ex(f, i)[:60]), f.loc(i), "" if good else "%s changes the positions of what the system holds: `%s`" % (f.short, pp.ex(f, i)[:60]))
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and last(n) in ("emplace_back", "push_back") and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])].get("fd") == SYS + "::matrices":
            rep.ok("permanent", "%s|appends" % f.short, f.loc(i))


# -- an index is asked as it was filled in -----------------------------------------------------------------------------------
def storage(X, rep):
    by = {}
    for f in X.fn:
        c = X.cls(f)
        if "Index" in c and f.name.rsplit("::", 1)[-1] in ("find", "contains", "insert") and re.search("IndexStorage", c):
            by.setdefault((c, re.sub(r"(4find|8contains|6insert).*", "", re.sub("^_ZNK", "_ZN", f.key))), {}).setdefault(f.name.rsplit("::", 1)[-1], []).append(f)
    for (c, _), ms in sorted(by.items()):
        ins = [f for f in ms.get("insert", []) if len(f.params) == 2]
        if not ins:
            continue
        idx = lambda f: f.T[f.params[0]["t"]].replace("const ", "").rstrip("& ")
        for g in ins:
            kg, fg = keys(X, g)
            st = stored(X, g)
            rep.add(st, "index", "%s|number" % g.short, g.loc(g.body), "" if st else "%s does not store the number it was given as it is" % g.short)
            for f in ms.get("find", []) + ms.get("contains", []):
                if len(f.params) != 1 or idx(f) != idx(g):
                    continue
                kf, ff = keys(X, f)
                if not kf:       # asks one of the others
                    asks = any(f.N[i]["k"] == "Call" and last(f.N[i]) in ("find", "contains") and plain(X.cn(f)(f.N[i]["a"][0])) == ("v", f.params[0]["v"]) for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("a"))
                    rep.add(asks, "index", "%s|asks" % f.short, f.loc(f.body), "" if asks else "%s does not look its description up" % f.short)
                    continue
                good = kf == kg and ff == fg
                rep.add(good, "index", "%s|keys" % f.short, f.loc(f.body), "" if good else "%s looks a description up otherwise than %s enters it" % (f.short, g.short))


def keys(X, f):
    cn = X.cn(f)
    ix = ("v", f.params[0]["v"])
    ks, fs = set(), set()
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("o", -1) >= 0 and n.get("a") or n["k"] == "Sub":
            o = n["o"] if n["k"] == "Call" else n["c"][0]
            a = n["a"] if n["k"] == "Call" else n["c"][1:]
            if f.N[strip(f, o)]["k"] == "This":
                continue
            hit = False
            for x in a:
                t = plain(cn(x))
                if core.mentions(t, ix) and f.N[x]["k"] != "DefArg":
                    ks.add(rename(t, ix))
                    hit = True
            if hit:
                for j in f.walk(o):
                    if (f.N[j].get("fd") or "").startswith("Moment"):
                        fs.add(f.N[j]["fd"])
                        break
    return ks, fs


def rename(t, ix):
    if t == ix:
        return ("index",)
    if isinstance(t, tuple):
        return tuple(rename(x, ix) for x in t)
    return t


def stored(X, f):
    cn = X.cn(f)
    off = ("v", f.params[1]["v"])
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Assign" and core.mentions(cn(n["c"][1]), off) and plain(cn(n["c"][1])) != off:
            return False
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and any(plain(cn(a)) == off for a in n.get("a", [])) or n["k"] == "Assign" and plain(cn(n["c"][1])) == off:
            return not any(f.N[j]["k"] in ("Bin", "Un") and f.N[j].get("op") in ("+", "-", "++", "--") and core.mentions(cn(j), off) for j in f.all_nodes())
    return False


# -- hooks that enter the matrix under a second description -----------------------------------------------------------------------
ROWS = [("Moment::Pauli::PauliMatrixSystem::on_new_moment_matrix", "PauliMomentMatrices", 0),
        ("Moment::Pauli::PauliMatrixSystem::on_new_nearest_neighbour_moment_matrix", "MomentMatrix", 1),
        ("Moment::Pauli::PauliMatrixSystem::on_new_localizing_matrix", "PauliLocalizingMatrices", 0),
        ("Moment::Pauli::PauliMatrixSystem::on_new_nearest_neighbour_localizing_matrix", "LocalizingMatrix", 1),
        ("Moment::Pauli::PauliMatrixSystem::on_new_polynomial_localizing_matrix", "PauliPolynomialLocalizingMatrices", 0),
        ("Moment::Pauli::PauliMatrixSystem::on_new_nearest_neighbour_localizing_matrix", "PolynomialLocalizingMatrix", 1),
        ("Moment::Derived::DerivedMatrixSystem::on_new_moment_matrix", "DerivedMatrices", 0),
        ("Moment::Derived::DerivedMatrixSystem::on_new_localizing_matrix", "DerivedMatrices", 0),
        ("Moment::Derived::DerivedMatrixSystem::on_new_polynomial_localizing_matrix", "DerivedMatrices", 0)]


def aliases(X, rep):
    for name, coll, cond in ROWS:
        fs = [f for f in X.fn if f.name == name]
        if coll in ("LocalizingMatrix", "PolynomialLocalizingMatrix"):
            fs = [f for f in fs if ("Polynomial" in f.T[f.params[1]["t"]]) == (coll[0] == "P")]
        if not fs:
            rep.note("hook that is no longer there", name)
            continue
        for f in fs:
            cn = X.cn(f)
            ev = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) == "insert_alias" and (f.N[strip(f, f.N[i].get("o", -1))].get("fd") or "").endswith("::" + coll)]
            F = core.DeepFacts(f)

            def ok(p, s):
                c = core.edge_cond(f, p)
                su = f.cfg.b[p]["s"]
                if not cond or c is None or su[0] == su[1]:
                    return True
                lit = set()
                core.literals(F.cn(c), su[0] == s, lit)
                return not any("neighbours" in repr(a) and (a[0] == "eq" and not t and ("int", 0) in a[1:] or a[0] == "ok" and t or a[0] in ("lt", "ltu") and a[1] == ("int", 0) and t) for a, t in lit)
            inner = bool(ev) and not path.escape(f, ev, ok)
            if not inner:
                # done by a function it calls
                hs = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and any(X.p.F[t].rel.startswith("cpp/lib_moment") and any(last(X.p.F[t].N[j]) == "insert_alias" for j in X.p.F[t].all_nodes() if X.p.F[t].N[j]["k"] == "Call") for t in X.p.targets(f.N[i]))]
                inner = not ev and bool(hs) and not path.escape(f, hs, ok)
            rep.add(inner, "alias", "%s|%s" % (f.short, coll), f.loc(f.body), "" if inner else "%s can return without having entered the matrix in %s%s" % (f.short, coll, " although its neighbours are not restricted" if cond else ""))
            for i in ev:
                a = f.N[i]["a"]
                good = len(a) == 3 and plain(cn(a[2])) == ("v", f.params[2]["v"])
                rep.add(good, "alias", "%s|%s number" % (f.short, coll), f.loc(i), "" if good else "%s enters another number than that of the matrix" % f.short)
                dep = core.mentions(cn(a[1]), ("v", f.params[1]["v"])) if len(a) == 3 else False
                if not dep and len(a) == 3:
                    import dep as dp
                    dep = any(x == f.params[1]["v"] for x in closure_vars(f, a[1], dp))
                rep.add(dep, "alias", "%s|%s description" % (f.short, coll), f.loc(i), "" if dep else "%s enters a description that does not come from the one it was given" % f.short)
                if cond:
                    st = F.at(i) if i in f.cfg.where else None
                    lits = st or ()
                    good = any("neighbours" in repr(x) and (x[0] == "eq" and t and ("int", 0) in x[1:] or x[0] == "ok" and not t) for x, t in lits)
                    rep.add(good, "alias", "%s|%s unrestricted only" % (f.short, coll), f.loc(i), "" if good else "%s enters a matrix of restricted neighbours as an unrestricted one" % f.short)


def closure_vars(f, i, dp):
    seen, st = set(), [i]
    out = set()
    while st:
        j = st.pop()
        for x in f.walk(j):
            v = f.N[x].get("v")
            if f.N[x]["k"] == "Lambda":
                g = f.prog.F.get(f.N[x]["f"])
                out |= {g.N[y]["v"] for y in g.all_nodes() if g.N[y]["k"] == "Ref" and g.N[y].get("v")} if g is not None else set()
            if f.N[x]["k"] == "Ref" and v and v not in seen:
                seen.add(v)
                out.add(v)
                g = core.varinfo(f).get(v)
                if g is not None and g.init is not None and g.init >= 0:
                    st.append(g.init)
    return out


# -- rulebooks, dictionary --------------------------------------------------------------------------------------------------------
def rulebooks(X, rep):
    for f in X.fn:
        if X.cls(f) != "Moment::RulebookStorage":
            continue
        add = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("emplace_back", "push_back") and f.N[strip(f, f.N[i].get("o", -1))].get("fd") == "Moment::RulebookStorage::rulebooks"]
        mrg = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn") == "Moment::MomentRulebook::combine_and_complete"]
        ev = [i for i in hooks(X, f) if f.N[i]["fn"].endswith("on_rulebook_added")]
        for kind, at in (("new", add), ("merged", mrg)):
            for i in at:
                good = bool(ev) and path.after(f, i, ev, lambda p, s: not handler(f, s))
                rep.add(good, "rulebook", "%s|%s announced" % (f.short, kind), f.loc(i), "" if good else "%s can return without announcing the rulebook" % f.short)
                for e in ev:
                    a = f.N[e]["a"]
                    if len(a) != 4:
                        continue
                    b = f.N[strip(f, a[3])]
                    good = path.before(f, e, [i])
                    rep.add(good, "rulebook", "%s|%s in place first" % (f.short, kind), f.loc(e), "" if good else "%s announces the rulebook before it is complete" % f.short)
                    if b["k"] == "Bool" or str(b.get("val")) in ("0", "1", "True", "False"):
                        good = (str(b.get("val")) in ("1", "True")) == (kind == "new")
                        rep.add(good, "rulebook", "%s|%s kind" % (f.short, kind), f.loc(e), "" if good else "%s announces a %s rulebook as the other kind" % (f.short, kind))
        if len(ev) > 0:
            twice = any(path.reach(f, a, b) for a in ev for b in ev)
            rep.add(not twice, "rulebook", "%s|once" % f.short, f.loc(ev[0]), "" if not twice else "%s can announce a rulebook twice" % f.short)


def handler(f, b):
    lb = f.cfg.b[b].get("lb")
    return lb is not None and f.N[lb]["k"] == "Catch"


def dictionary(X, rep):
    for f in X.fn:
        if X.cls(f) not in X.family:
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("fn") == "Moment::SymbolTable::fill_to_word_length":
                ev = [j for j in hooks(X, f) if f.N[j]["fn"].endswith("::on_new_dictionary")]
                good = bool(ev) and path.after(f, i, ev)
                rep.add(good, "hook", "%s|dictionary" % f.short, f.loc(i), "" if good else "%s can return without announcing the dictionary" % f.short)
                cn = X.cn(f)
                for j in ev:
                    good = cn(f.N[j]["a"][1]) == cn(n["a"][0])
                    rep.add(good, "hook", "%s|word length" % f.short, f.loc(j), "" if good else "%s announces another word length than it filled in" % f.short)


# -- what the systems do when they are told ---------------------------------------------------------------------------------------
TOLD = [("Moment::Inflation::InflationMatrixSystem::on_new_symbols_registered", ["Moment::Inflation::FactorTable::on_new_symbols_added", "Moment::RulebookStorage::refreshAll"], {1: [(1, 1)]}),
        ("Moment::Inflation::InflationMatrixSystem::on_rulebook_added", ["Moment::Inflation::InflationMatrixSystem::expand_rulebook"], {}),
        ("Moment::RulebookStorage::refreshAll", ["Moment::MatrixSystem::expand_rulebook"], {0: [(1, 1)]})]


def dependents(X, rep):
    for name, acts, args in TOLD:
        fs = [f for f in X.fn if f.name == name]
        if not fs:
            rep.note("hook that is no longer there", name)
        for f in fs:
            cn = X.cn(f)
            F = core.DeepFacts(f)
            counts = [("v", q["v"]) for q in f.params if "long" in f.T[q["t"]]]

            def ok(p, s):
                c = core.edge_cond(f, p)
                su = f.cfg.b[p]["s"]
                lab = f.cfg.b[p].get("t")
                if c is None:
                    return True
                if lab is not None and f.N[lab]["k"] == "RangeFor":
                    return True
                lit = set()
                core.literals(F.cn(c), su[0] == s, lit)
                return not any(set(a[1:]) >= set(counts[:2]) and len(counts) > 1 and (a[0] == "eq" and t or a[0] in ("lt", "ltu") and (a[1] == counts[0] and not t or a[1] == counts[1] and t)) for a, t in lit)
            prev = None
            for k, a in enumerate(acts):
                ev = reaching(X, f, a)
                loop = [l for l in f.all_nodes() if f.N[l]["k"] in ("RangeFor", "For", "While") and any(e in set(f.walk(l)) for e in ev)]
                if loop:
                    # every element of what is gone through
                    body = f.N[loop[0]]["body"]
                    good = bool(ev) and not any(f.N[j]["k"] in ("Break", "Return", "Continue", "Goto") for j in f.walk(body)) and not any(conditional(f, body, e) for e in ev)
                else:
                    good = bool(ev) and not path.escape(f, ev, ok)
                rep.add(good, "dependents", "%s|%s" % (f.short, a.rsplit("::", 1)[-1]), f.loc(f.body), "" if good else "%s can return without %s" % (f.short, a.replace("Moment::", "")))
                for i in ev:
                    n = f.N[i]
                    if prev and n.get("fn") == a:
                        g2 = path.before(f, i, prev)
                        rep.add(g2, "dependents", "%s|%s in order" % (f.short, a.rsplit("::", 1)[-1]), f.loc(i), "" if g2 else "%s calls %s before what that depends on" % (f.short, a.replace("Moment::", "")))
                    for p, q in args.get(k, ()):
                        if n.get("fn") == a and len(n.get("a", [])) > p:
                            g2 = cn(n["a"][p]) == ("v", f.params[q]["v"])
                            rep.add(g2, "dependents", "%s|%s from" % (f.short, a.rsplit("::", 1)[-1]), f.loc(i), "" if g2 else "%s does not hand on from which symbol on there are new ones" % f.short)
                prev = ev


def reaching(X, f, name, depth=0):
    """calls of the function, or of one of the library that always calls it"""
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Call":
            continue
        if n.get("fn") == name or any(X.p.F[t].name == name for t in X.p.targets(n)):
            out.append(i)
        elif last(n) == "for_each":
            # every element, by a function that always calls it
            t = pp.ex(f, i)
            for a in n.get("a", ()):
                for j in f.walk(a):
                    g = X.p.F.get(f.N[j].get("f")) if f.N[j]["k"] == "Lambda" else None
                    if g is not None and not g.cfg:        # a generic lambda: what it is instantiated with
                        g = next((h for h in X.fn if h.get("lambda") and h.cfg and h.loc() == g.loc()), None)
                    if g is not None and ("begin()" in t and "end()" in t or "ranges" in n.get("fn", "")):
                        ev = reaching(X, g, name, depth + 1)
                        if ev and not path.escape(g, ev):
                            out.append(i)
        elif depth < 2:
            for t in X.p.targets(n):
                g = X.p.F[t]
                if lib(g) and g is not f:
                    ev = reaching(X, g, name, depth + 1)
                    if ev and not path.escape(g, ev):
                        out.append(i)
    return out


def conditional(f, body, e):
    """is e inside a condition within the body"""
    return any(f.N[j]["k"] in ("If", "Switch", "Cond", "For", "While", "Do", "RangeFor") and e in set(f.walk(j)) and not ("cond" in f.N[j] and e in set(f.walk(f.N[j]["cond"])) and f.N[j]["k"] == "If") for j in f.walk(body) if j != body) or any(
        f.N[j]["k"] == "Bin" and f.N[j].get("op") in ("&&", "||") and e in set(f.walk(f.N[j]["c"][1])) for j in f.walk(body))
