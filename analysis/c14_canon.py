"""C14: polynomials are in canonical form whenever they can be seen: ordered, no two terms of one moment, no zero terms."""
import re
import core, effects, path, pp
from c10_missing import strip, last, lib

RULE = ("a polynomial built from an arbitrary list of terms sorts it, then joins equal terms, then drops zeros, in that order, and skips the first two only for lists of at most one term; joining compares moment and conjugation; "
        "dropping keeps a term only if its factor is not close to zero and its moment is not the zero moment; a term put straight into a polynomial is a copy of a term of a polynomial or has been tested not to be zero; "
        "lists that are joined in order take each term once, in the order of the comparison, and add the factors of equal ones; an operation that changes factors in place by more than a phase drops zeros afterwards, and one that "
        "changes conjugation restores the order and joins; where a factory is at hand a list of terms becomes a polynomial through the factory's own ordering")
TECHNIQUE = "typestate (arbitrary / sorted / joined / zero-free) on term lists with must-pass path search; branch-condition dominance for terms and merge loops; construction census"
LEVEL = "abstraction"

STO = re.compile(r"SmallVector<Moment::Monomial\b")
POLY = re.compile(r"^(const )?Moment::Polynomial( \*?const| \*| &|$)")
PUSH = {"emplace_back", "push_back", "insert", "emplace", "append"}


def ty(f, i):
    n = f.N[i]
    return f.T[n["t"]] if "t" in n else ""


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.E = effects.get(prog)
        self.fn = [f for f in prog.live() if lib(f)]
        self.vi = {}

    # ---- names
    def canon(self, f, i):
        i = strip(f, i)
        return self.E.canon(f)(i)

    def var(self, f, i):
        i = strip(f, i)
        n = f.N[i]
        while n["k"] == "Call" and n.get("fn") in ("std::move", "std::forward", "std::as_const") and n.get("a"):
            i = strip(f, n["a"][0])
            n = f.N[i]
        return n.get("v") if n["k"] == "Ref" else None

    def init(self, f, v):
        m = self.vi.get(f.key)
        if m is None:
            m = self.vi[f.key] = {}
            for i in f.all_nodes():
                n = f.N[i]
                for d in n.get("vars", ()) if n["k"] == "Decl" else ():
                    m[d.get("v")] = d.get("i", -1)
        x = m.get(v)
        return x if x is not None and x >= 0 else None

    def owner(self, f, v, words=("begin", "cbegin", "rbegin", "end", "cend")):
        """the container an iterator variable starts from"""
        x = self.init(f, v)
        if x is None:
            return None
        x = strip(f, x)
        n = f.N[x]
        if n["k"] == "Call" and last(n) in words:
            o = n.get("o", -1)
            o = o if o >= 0 else (n["a"][0] if n.get("a") else -1)
            return o if o >= 0 else None
        return None

    def term_iter(self, f, i):
        """the iterator of `*it`, `it->...` with `it` going through the terms of a polynomial"""
        i = strip(f, i)
        n = f.N[i]
        if n["k"] == "Un" and n.get("op") == "*" or n["k"] == "Call" and n.get("op") == "*":
            v = self.var(f, n["c"][0])
            if v is None:
                return None
            o = self.owner(f, v)
            if o is not None and self.poly_list(f, o):
                return v
        if n["k"] == "Ref":
            x = self.init(f, n.get("v"))
            if x is not None and f.N[strip(f, x)]["k"] in ("Un", "Call") and strip(f, x) != i:
                y = strip(f, x)
                m = f.N[y]
                if m.get("op") == "*" and m.get("c"):
                    w = self.var(f, m["c"][0])
                    o = w is not None and self.owner(f, w)
                    if o is not None and o is not False and (self.poly_list(f, o) or self.poly_range(f, o)):
                        return w
        return None

    def poly_range(self, f, o):
        v = self.var(f, o)
        if v is None:
            return False
        x = self.init(f, v)
        return x is not None and self.poly_list(f, x)

    def poly_list(self, f, o):
        """an expression that is a polynomial or the list of terms inside one"""
        o = strip(f, o)
        t = ty(f, o)
        if POLY.match(t.strip()):
            return True
        n = f.N[o]
        if n["k"] == "Mem" and STO.search(t):
            b = n["c"][0] if n.get("c") else -1
            return b >= 0 and re.search(r"Moment::Polynomial\b(?!F)", ty(f, b)) is not None or f.get("cls") == "Moment::Polynomial"
        return False

    # ---- conditions
    def conds(self, f):
        """edges (p, s) -> (condition node, truth)"""
        m = self.vi.get((f.key, 'c'))
        if m is None:
            m = {}
            for b in f.cfg.reach:
                c = core.edge_cond(f, b)
                if c is None:
                    continue
                s = f.cfg.b[b]["s"]
                if s[0] is None or s[1] is None or s[0] == s[1]:
                    continue
                m[(b, s[0])] = (c, True)
                m[(b, s[1])] = (c, False)
            self.vi[(f.key, 'c')] = m
        return m

    def lit(self, f, c, t):
        c = strip(f, c)
        while True:
            n = f.N[c]
            if n["k"] == "Un" and n.get("op") == "!":
                c, t = strip(f, n["c"][0]), not t
                continue
            if n["k"] == "Ref" and n.get("dk") == "local" and "bool" in ty(f, c):
                x = self.init(f, n["v"])
                if x is not None and f.N[strip(f, x)]["k"] in ("Call", "Bin", "Un") and core.stable_local(f, n["v"]):
                    c = strip(f, x)
                    continue
            break
        n = f.N[c]
        if n["k"] == "Bin" and n.get("op") == "!=":
            return c, "==", not t
        if n["k"] == "Bin" and n.get("op") == "==":
            return c, "==", t
        return c, n.get("op"), t

    def holds(self, f, c, t, test):
        """does the edge condition c == t imply the test; conjunctions and disjunctions are taken apart"""
        c = strip(f, c)
        n = f.N[c]
        if n["k"] == "Bin" and n.get("op") in ("&&", "||"):
            if (n["op"] == "&&") == t:
                return any(self.holds(f, x, t, test) for x in n["c"])
            return all(self.holds(f, x, t, test) for x in n["c"])
        if n["k"] == "Un" and n.get("op") == "!":
            return self.holds(f, n["c"][0], not t, test)
        c2, op, t2 = self.lit(f, c, t)
        if f.N[c2]["k"] == "Bin" and f.N[c2].get("op") in ("&&", "||") and c2 != c:
            return self.holds(f, c2, t2, test)
        return bool(test(c2, op, t2))

    def forced(self, f, i, test):
        cs = self.conds(f)

        def ok(p, x):
            e = cs.get((p, x))
            return not (e and self.holds(f, e[0], e[1], test))
        return path.before(f, i, [], ok)

    def zero_test(self, f, what, key="factor"):
        """test: `what` (canonical factor, or canonical monomial) is not close to zero"""
        def t(c, op, tr):
            n = f.N[c]
            return not tr and n["k"] == "Call" and last(n) == "approximately_zero" and self.canon(f, n["a"][0]) in what
        return t

    def nonzero_monomial(self, f, i, at):
        """a whole monomial that has been tested: factor not close to zero and id not 0"""
        x = strip(f, i)
        fac, ids = set(), set()
        base = self.canon(f, x)

        def tf(c, op, tr):
            n = f.N[c]
            if tr or n["k"] != "Call" or last(n) != "approximately_zero":
                return False
            m = f.N[strip(f, n["a"][0])]
            return m["k"] == "Mem" and m.get("n") == "factor" and self.canon(f, m["c"][0]) == base

        def ti(c, op, tr):
            n = f.N[c]
            if op != "==" or tr:
                return False
            a, b = [strip(f, y) for y in n["c"]]
            for u, w in ((a, b), (b, a)):
                m = f.N[u]
                if m["k"] == "Mem" and m.get("n") == "id" and self.canon(f, m["c"][0]) == base and is_zero(f, w):
                    return True
            return False
        return self.forced(f, at, tf), self.forced(f, at, ti)

    def less_args(self, f, c):
        n = f.N[c]
        if n["k"] != "Call" or len(n.get("a", ())) != 2:
            return None
        if last(n) == "less" or n.get("op") == "()" and "bool" in ty(f, c) and not re.search(r"LexEq|Equal|eq\b", n.get("fn", "")):
            return n["a"]
        return None


def is_zero(f, i):
    n = f.N[strip(f, i)]
    return n["k"] in ("Int", "Flt") and float(n.get("val", 1)) == 0 or pp.ex(f, i) in ("0", "0.000000")


def assigned(f, i):
    """(target, value, op) of an assignment node"""
    n = f.N[i]
    if n["k"] in ("Bin", "Assign", "CompoundAssign") and str(n.get("op", "")).endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
        return n["c"][0], n["c"][1], n["op"]
    if n["k"] == "Call" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and len(n.get("c", ())) == 2:
        return n["c"][0], n["c"][1], n["op"]
    return None


def calls(f, name):
    return [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) == name]


def check(prog, rep, tier):
    T = Ctx(prog)
    for f in T.fn:
        cls = f.get("cls") or ""
        inpoly = cls == "Moment::Polynomial"
        if inpoly or re.match(r"Moment::PolynomialFactory", cls):
            pipeline(T, rep, f, inpoly)
            inplace(T, rep, f)
        if f.short == "Polynomial::remove_duplicates":
            joining(T, rep, f)
        elif f.short == "Polynomial::remove_zeros":
            dropping(T, rep, f)
        else:
            terms(T, rep, f)
        callers(T, rep, f)
        construct(T, rep, f)


# ---------------------------------------------------------------- pipeline
def sized(T, f, c, op, t):
    """the condition says that the list has at most one term"""
    n = f.N[c]
    s = pp.ex(f, c).replace(" ", "")
    m = re.search(r"size\(\)(>|<=|<|>=)(\d+)\)?$", s)
    if m:
        o, k = m.group(1), int(m.group(2))
        return (o, t) in ((">", False), ("<=", True)) and k <= 1 or o == "<" and t and k <= 2 or o == ">=" and not t and k <= 2
    m = re.search(r"^\(?(\d+)(<|>=|<=|>)[\w.>()\-]*size\(\)\)?$", s)
    if m:
        k, o = int(m.group(1)), m.group(2)
        return (o, t) in (("<", False), (">=", True)) and k <= 1 or o == ">" and t and k <= 2 or o == "<=" and not t and k <= 2
    return n["k"] == "Call" and last(n) in ("empty", "is_monomial") and t


def small(T, f):
    """edges taken by lists of more than one term"""
    cs = T.conds(f)

    def ok(p, x):
        e = cs.get((p, x))
        return not (e and T.holds(f, e[0], e[1], lambda c, op, t: sized(T, f, c, op, t)))
    return ok


def steps(T, f, name, depth=2):
    """calls of a step, directly or by a helper that always takes it"""
    out = [i for i in calls(f, name)]
    if depth:
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or last(n) == name or not re.match(r"Moment::Polynomial(Factory\w*)?::|Moment::\(anon\)::", n.get("fn", "")):
                continue
            g = T.p.F.get(n.get("f"))
            if g is None or g.get("ctor") or g.short in ("Polynomial::append", "Polynomial::scale", "Polynomial::conjugate_in_place", "Polynomial::fix_cc_in_place"):
                continue
            ev = steps(T, g, name, depth - 1)
            if ev and not path.escape(g, ev, None if name == "remove_zeros" else small(T, g)):
                out.append(i)
    return out


def pipeline(T, rep, f, inpoly):
    dup, zero, sort, cc = steps(T, f, "remove_duplicates"), steps(T, f, "remove_zeros"), steps(T, f, "sort"), calls(f, "fix_cc_in_place")
    sort = [i for i in sort if f.short != "Polynomial::sort"]
    fill = None
    if inpoly and f.get("ctor"):
        raw = any("init_raw_tag" in (f.T[p["t"]] if "t" in p else "") for p in f.get("params") or ())
        for it in f.get("inits") or ():
            if it.get("fd", "").endswith("data") or it.get("n") == "data":
                fill = it
        sto = any(STO.search(f.T[p["t"]]) for p in f.get("params") or () if "t" in p)
        if sto and not raw:
            rep.add(not path.escape(f, zero), "ends-free-of-zeros", f.short, f.loc(), "a polynomial made from a list of terms drops zero terms on every path")
            rep.add(not path.escape(f, dup, small(T, f)), "joins-equal-terms", f.short, f.loc(), "a polynomial made from a list of terms joins equal terms unless the list has at most one")
            for i in cc:
                rep.add(not any(path.reach(f, s, i) for s in sort + dup + zero), "symbols-settled-first", f.short, f.loc(i), "conjugations are settled before sorting, not after")
            rep.floor("joins-equal-terms", 1)
    for i in dup:
        if i in zero and i in dup and last(f.N[i]) != "remove_duplicates":
            continue                 # a helper that does both is judged by itself
        if f.get("ctor") or sort:
            rep.add(path.before(f, i, sort), "sorted-before-joining", f.short, f.loc(i), "the list is sorted before neighbours are joined")
        rep.add(path.after(f, i, zero), "dropped-after-joining", f.short, f.loc(i), "terms that cancel are dropped after joining")
    for i in zero:
        if dup and last(f.N[i]) == "remove_zeros":
            rep.add(not any(path.reach(f, i, d) for d in dup), "dropped-last", f.short, f.loc(i), "zeros are dropped after the last joining")


# ---------------------------------------------------------------- joining and dropping
def field_eq(T, f, field):
    """test: two monomials agree in the field"""
    def t(c, op, tr):
        n = f.N[c]
        if op != "==" or not tr:
            return False
        a, b = [f.N[strip(f, y)] for y in n["c"]]
        return a["k"] == "Mem" and b["k"] == "Mem" and a.get("n") == field and b.get("n") == field and T.canon(f, a["c"][0]) != T.canon(f, b["c"][0])
    return t


def implied(T, f, c, t, field, depth=2):
    """condition c having the truth t implies that two monomials agree in the field (calls are looked into)"""
    def test(c2, op, t2):
        if field_eq(T, f, field)(c2, op, t2):
            return True
        n = f.N[c2]
        if n["k"] == "Call" and t2 and depth:
            gs = [T.p.F.get(k) for k in T.p.targets(n)]
            gs = [g for g in gs if g is not None]
            return bool(gs) and all(returns_only(T, g, field, depth - 1) for g in gs)
        return False
    return T.holds(f, c, t, test)


def returns_only(T, g, field, depth):
    seen = False
    for i in g.all_nodes():
        if g.N[i]["k"] != "Return" or not g.kids(i):
            continue
        r = strip(g, g.kids(i)[0])
        s = pp.ex(g, r)
        if s == "false":
            continue
        seen = True
        if T.forced(g, i, field_eq(T, g, field)):
            continue
        if s == "true" or not implied(T, g, r, True, field, depth):
            return False
    return seen


def joining(T, rep, f):
    sums = []
    for i in f.all_nodes():
        a = assigned(f, i)
        if a and member(f, a[0]) == "factor":
            sums.append(i)
    cs = T.conds(f)
    for i in sums:
        for field in ("id", "conjugated"):
            def ok(p, x):
                e = cs.get((p, x))
                return not (e and implied(T, f, e[0], e[1], field))
            rep.add(path.before(f, i, [], ok), "joins-same-moment-only", field, f.loc(i), "factors are added only for terms that agree in '%s'" % field)
        op = assigned(f, i)[2]
        s = pp.ex(f, i)
        rep.add(op == "+=" or op == "=" and " + " in s, "adds-factors", f.short, f.loc(i), "the factors of equal terms are added")
    rep.add(bool(sums), "adds-factors", f.short + "/any", f.loc(), "equal terms are joined by adding their factors")
    er = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("erase", "resize", "swap", "operator=", "assign")]
    rep.add(bool(er) and not path.escape(f, er), "shortens", f.short, f.loc(), "the left-over tail of the list is removed on every path")


def dropping(T, rep, f):
    keep = []
    er = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("erase", "resize", "swap", "assign")]
    rep.add(bool(er) and not path.escape(f, er), "shortens", f.short, f.loc(), "the left-over tail of the list is removed on every path")
    pred = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and last(f.N[i]) in ("remove_if", "erase_if")]
    if pred:
        return
    wr = None
    for i in er:                      # erase(write, last)
        n = f.N[i]
        if last(n) == "erase" and n.get("a"):
            wr = T.var(f, n["a"][0])
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Un" and n.get("op") in ("++",) and T.var(f, n["c"][0]) == wr and wr is not None:
            keep.append(i)

    def nz(c, op, t):
        n = f.N[c]
        return not t and n["k"] == "Call" and last(n) == "approximately_zero" and member(f, n["a"][0]) == "factor"

    def ni(c, op, t):
        return op == "==" and not t and any(member(f, y) == "id" for y in f.N[c]["c"]) and any(is_zero(f, y) for y in f.N[c]["c"])
    for i in keep:
        rep.add(T.forced(f, i, nz), "keeps-nonzero-only", "factor", f.loc(i), "a term is kept only if its factor is not close to zero")
        rep.add(T.forced(f, i, ni), "keeps-nonzero-only", "id", f.loc(i), "a term is kept only if it is not the zero moment")


def member(f, i):
    i = strip(f, i)
    n = f.N[i]
    return n.get("n") if n["k"] == "Mem" else None


# ---------------------------------------------------------------- terms put straight into a polynomial
def raw_lists(T, f):
    """local term lists that end as a polynomial without canonicalisation"""
    out = set()
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and last(n) in ("swap", "operator=") and n.get("c"):
            cs = n["c"]
            if any(poly_data(T, f, c) for c in cs):
                for c in cs:
                    v = T.var(f, c)
                    if v is not None and STO.search(ty(f, strip(f, c))):
                        out.add(v)
        if n["k"] == "Ctor" and n.get("cls") == "Moment::Polynomial" and len(n.get("a", ())) == 2 and "init_raw_tag" in ty(f, n["a"][0]):
            v = T.var(f, n["a"][1])
            if v is not None and f.N[strip(f, n["a"][1])].get("dk") != "parm":
                out.add(v)
    return out


def poly_data(T, f, i):
    i = strip(f, i)
    n = f.N[i]
    return n["k"] == "Mem" and n.get("n") == "data" and bool(STO.search(ty(f, i))) and T.poly_list(f, i)


def terms(T, rep, f):
    lists = raw_lists(T, f)
    pushes = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and last(n) in PUSH and n.get("o", -1) >= 0:
            o = strip(f, n["o"])
            if poly_data(T, f, o) or T.var(f, o) in lists and f.N[o]["k"] == "Ref":
                pushes.append((i, n["a"]))
        elif n["k"] == "Call" and n.get("fn") == "std::back_inserter":
            o = strip(f, n["a"][0])
            if poly_data(T, f, o) or T.var(f, o) in lists and f.N[o]["k"] == "Ref":
                copies(T, rep, f, i)
        elif n["k"] == "Ctor" and n.get("cls") == "Moment::Polynomial" and len(n.get("a", ())) == 2 and "init_raw_tag" in ty(f, n["a"][0]):
            els = elements(f, n["a"][1])
            if els:
                for e in els:
                    one_term(T, rep, f, i, [e])
                if len(els) == 2:
                    two_terms(T, rep, f, i, els)
                elif len(els) > 2:
                    rep.bad("ordered", f.short, f.loc(i), "more than two terms are put together without sorting")
            elif T.var(f, n["a"][1]) is None:
                rep.bad("ordered", f.short, f.loc(i), "a polynomial is made from a list whose order is not known")
    if f.short in ("Polynomial::(ctor)",) and pushes:
        zero = calls(f, "remove_zeros")
        for i, a in pushes:
            good = len(a) == 1 and T.term_iter(f, a[0])
            if not good and path.after(f, i, zero) and zero:
                rep.ok("term-not-zero", f.short, f.loc(i), "zeros are dropped afterwards")
            else:
                one_term(T, rep, f, i, a)
        return
    for i, a in pushes:
        one_term(T, rep, f, i, a)
    if pushes:
        merging(T, rep, f, pushes)


def elements(f, i):
    i = strip(f, i)
    n = f.N[i]
    while n["k"] == "Ctor" and n.get("cls") == "Moment::SmallVector" and len(n.get("a", ())) >= 1:
        i = strip(f, n["a"][0])
        n = f.N[i]
    if n["k"] in ("InitList", "Init"):
        out = []
        for c in n.get("c", ()):
            c = strip(f, c)
            m = f.N[c]
            if m["k"] in ("InitList", "Init"):
                out += [strip(f, x) for x in m.get("c", ())]
            else:
                out.append(c)
        return out
    return []


def one_term(T, rep, f, i, a, depth=2):
    key = f.short
    if len(a) == 1:
        x = strip(f, a[0])
        if T.term_iter(f, x):
            rep.ok("term-not-zero", key, f.loc(i), "a copy of a term of a polynomial")
            return
        n = f.N[x]
        if n["k"] == "Ref" and n.get("dk") == "parm" and (f.get("lambda") or "(anon)" in f.short):
            k = [j for j, q in enumerate(f.get("params") or ()) if q["v"] == n["v"]]
            sites = [(g, c) for g in T.fn for c in g.all_nodes() if g.N[c]["k"] == "Call" and g.N[c].get("f") == f.key]
            if k and sites and depth:
                for g, c in sites:
                    if k[0] < len(g.N[c]["a"]):
                        one_term(T, rep, g, c, [g.N[c]["a"][k[0]]], depth - 1)
                return
        if n["k"] == "Ref" and n.get("dk") == "local":
            y = T.init(f, n["v"])
            y = strip(f, y) if y is not None else x
            if f.N[y]["k"] == "Ctor" and f.N[y].get("cls") == "Moment::Monomial" and len(f.N[y].get("a", ())) >= 2:
                g, h = T.nonzero_monomial(f, x, i)
                h = h or member(f, f.N[y]["a"][0]) == "id" and bool(T.term_iter(f, f.N[strip(f, f.N[y]["a"][0])]["c"][0]) or T.var(f, f.N[strip(f, f.N[y]["a"][0])]["c"][0]))
                g = g or T.forced(f, i, T.zero_test(f, {T.canon(f, f.N[y]["a"][1])}))
                rep.add(g and h, "term-not-zero", key, f.loc(i), "the factor of a computed term has been tested not to be close to zero")
                return
        if n["k"] == "Ctor" and n.get("cls") == "Moment::Monomial" and len(n.get("a", ())) >= 2:
            a = n["a"]
        else:
            g, h = T.nonzero_monomial(f, x, i)
            rep.add(g and h, "term-not-zero", key, f.loc(i), "the term put into the polynomial has been tested: factor not close to zero%s, moment not the zero moment%s" % ("" if g else " (NOT)", "" if h else " (NOT)"))
            return
    if len(a) >= 2:
        c = T.canon(f, a[1])
        z = T.zero_test(f, {c})
        rep.add(T.forced(f, i, z), "term-not-zero", key, f.loc(i), "the factor of a computed term has been tested not to be close to zero")


def two_terms(T, rep, f, i, els):
    A, B = T.canon(f, els[0]), T.canon(f, els[1])

    def less(c, op, t):
        x = T.less_args(f, c)
        return bool(x) and t and T.canon(f, x[0]) == A and T.canon(f, x[1]) == B

    def notmore(c, op, t):
        x = T.less_args(f, c)
        return bool(x) and not t and T.canon(f, x[0]) == B and T.canon(f, x[1]) == A
    good = T.forced(f, i, less) or T.forced(f, i, notmore) and T.forced(f, i, lambda c, op, t: distinct(T, f, c, op, t))
    rep.add(good, "ordered", f.short, f.loc(i), "two terms are put together in the order of the comparison, and only if they are of different moments")


def distinct(T, f, c, op, t):
    n = f.N[c]
    return op == "==" and not t and all(member(f, y) in ("id", "conjugated") for y in n["c"])


def copies(T, rep, f, i):
    """a whole polynomial is appended: only to an empty one (what is left of one may follow a merge)"""
    par = f.parents()
    j = par.get(i)
    while j is not None and f.N[j]["k"] in ("Cast", "Ctor", "Paren"):
        j = par.get(j)
    if j is not None and f.N[j]["k"] == "Call" and f.N[j].get("a"):
        v = T.var(f, f.N[j]["a"][0])
        if v is not None and T.owner(f, v) is not None and T.poly_list(f, T.owner(f, v)) and not core.stable_local(f, v):
            rep.note("rest of a list", f.short, f.loc(i))
            return
    def empty(c, op, t):
        n = f.N[c]
        if n["k"] == "Call" and last(n) == "empty" and t:
            return True
        if op == "==" and t:
            vs = [T.var(f, y) for y in n["c"]]
            os = [v is not None and T.owner(f, v) for v in vs]
            return all(o is not None and o is not False for o in os) and T.canon(f, os[0]) == T.canon(f, os[1])
        if op == "==" and t and any(is_zero(f, y) for y in n["c"]):
            return "size()" in pp.ex(f, c)
        return False
    rep.add(T.forced(f, i, empty), "ordered", f.short, f.loc(i), "all terms of a polynomial are appended only to an empty one")


# ---------------------------------------------------------------- ordered merges
def merging(T, rep, f, pushes):
    push = {}
    for i, a in pushes:
        if len(a) == 1:
            v = T.term_iter(f, a[0])
            if v:
                push.setdefault(v, []).append(i)
    if not push:
        return
    inc, use = {}, {v: list(x) for v, x in push.items()}
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Un" and n.get("op") in ("++", "++post", "post++"):
            v = T.var(f, n["c"][0])
            if v:
                inc.setdefault(v, []).append(i)
        elif n["k"] == "Call" and n.get("op") == "++" and n.get("c"):
            v = T.var(f, n["c"][0])
            if v:
                inc.setdefault(v, []).append(i)
        elif n["k"] == "Call" and last(n) == "advance" and n.get("a"):
            v = T.var(f, n["a"][0])
            if v:
                inc.setdefault(v, []).append(i)
        elif assigned(f, i) and T.var(f, assigned(f, i)[0]):
            v, (_, w, op) = T.var(f, assigned(f, i)[0]), assigned(f, i)
            m = f.N[strip(f, w)]
            if op == "+=" or op == "=" and (m["k"] == "Call" and last(m) == "next" or m.get("op") == "+") and v in {T.var(f, y) for y in list(m.get("a") or ()) + list(m.get("c") or ())}:
                if T.owner(f, v) is not None:
                    inc.setdefault(v, []).append(i)
        if n["k"] == "Call" and n.get("op") == "+" or n["k"] == "Bin" and n.get("op") == "+":
            for c in n["c"]:
                m = f.N[strip(f, c)]
                if m["k"] == "Mem" and m.get("n") == "factor":
                    b = strip(f, m["c"][0])
                    v = T.var(f, b) or T.term_iter(f, b)
                    if v:
                        use.setdefault(v, []).append(i)
    others = set(push) | {v for v in use if v in inc}
    seen = {v: list(use.get(v, ())) for v in others}
    for i in f.all_nodes():               # handed to some other function
        n = f.N[i]
        if n["k"] == "Call" and n.get("a") and not T.less_args(f, i) and n.get("op") not in ("==", "!=", "++", "*", "->") and i not in {y for x in use.values() for y in x}:
            for a in n["a"]:
                v = T.term_iter(f, a) or T.var(f, a)
                if v in seen and last(n) not in ("approximately_zero", "less"):
                    seen[v].append(i)
    rep.note(f.short, "%d iterators merged" % len(others))
    for v in sorted(others):
        if v not in inc or T.owner(f, v) is None:
            continue
        for u in use.get(v, ()):
            bad = [w for w in use[v] if path.reach(f, u, w, avoid=inc[v])]
            rep.add(not bad, "each-term-once", f.short + ":" + v.split("#")[0], f.loc(u), "after a term has been taken its iterator moves on before the next is taken")
        for x in inc[v]:
            ok = path.before(f, x, seen[v]) and not any(path.reach(f, y, x, avoid=seen[v]) for y in inc[v])
            rep.add(ok, "each-term-once", f.short + ":" + v.split("#")[0], f.loc(x), "an iterator moves on only after its term has been taken")
    plain1 = {}
    for i, a in pushes:
        if len(a) == 1 and not T.term_iter(f, a[0]) and T.var(f, a[0]) in {q["v"] for q in f.get("params") or ()}:
            plain1.setdefault(T.var(f, a[0]), []).append(i)
    for v, us in sorted(plain1.items()):
        us = us + [i for i in use.get(v, ()) if i not in us]
        for u in us:
            rep.add(not any(path.reach(f, u, w) for w in us), "each-term-once", f.short + ":" + v.split("#")[0], f.loc(u), "a single term is taken once")
    # the order of the comparison
    cs = T.conds(f)
    for (p, x), (c, t) in sorted(cs.items()):
        c2, op, t2 = T.lit(f, c, t)
        ab = T.less_args(f, c2)
        if not ab:
            continue
        va = [T.term_iter(f, y) or T.var(f, y) for y in ab]
        if None in va:
            continue
        A, B = va
        stop = inc.get(A, []) + inc.get(B, [])
        single = {w: [i for i, a in pushes if len(a) == 1 and T.term_iter(f, a[0]) is None and T.var(f, a[0]) == w] for w in (A, B)}

        def plain(v):
            return push.get(v, []) + [i for i, a in pushes if len(a) == 1 and T.term_iter(f, a[0]) is None and T.var(f, a[0]) == v]

        def exh(v):
            def test(c, op, t):
                n = f.N[c]
                if op == "==" and t:
                    vs = [T.var(f, y) for y in n["c"]]
                    return v in vs
                return False
            return test

        def hit(v, pas):
            """a push of v reached from this edge without any movement and without passing an edge that allows it"""
            def ok(a, b):
                e = cs.get((a, b))
                if e:
                    k = T.lit(f, e[0], e[1])
                    if k[0] == c2 and k[2] != t2:
                        return False
                return not (e and T.holds(f, e[0], e[1], pas))
            tgt = plain(v)
            gone = [y for w in (A, B) if w != v for y in single[w]]      # a single term that has been taken is exhausted
            return any(edge_reach(f, x, g, stop + gone, ok) for g in tgt)
        if t2:
            bad = hit(B, exh(A))
            rep.add(not bad, "smaller-first", f.short, f.loc(c2), "where the comparison says that '%s' comes first, '%s' is not taken" % (A.split("#")[0], B.split("#")[0]))
        else:
            def other(c, op, t):
                y = T.less_args(f, c)
                if y and t:
                    w = [T.term_iter(f, z) or T.var(f, z) for z in y]
                    if w == [B, A]:
                        return True
                return distinct(T, f, c, op, t) or exh(A)(c, op, t)
            bad = hit(A, exh(B))
            rep.add(not bad, "smaller-first", f.short, f.loc(c2), "where the comparison says that '%s' does not come first it is not taken" % A.split("#")[0])
            bad = hit(B, other)
            rep.add(not bad, "smaller-first", f.short, f.loc(c2), "'%s' is taken alone only if it comes first, not if the two are of one moment" % B.split("#")[0])


def edge_reach(f, x, g, stop, ok):
    ev = path._events(f, stop)
    w = path._pos(f, g)
    st, seen = [x], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        ks = ev.get(b, ())
        if b == w[0] and not any(k < w[1] for k in ks):
            return True
        if ks:
            continue
        st.extend(s for s in f.cfg.succ[b] if ok(b, s))
    return False


# ---------------------------------------------------------------- changes in place
def inplace(T, rep, f):
    if f.short in ("Polynomial::remove_duplicates", "Polynomial::remove_zeros", "Polynomial::sort", "Polynomial::append"):
        return
    zero, dup, sort = steps(T, f, "remove_zeros"), steps(T, f, "remove_duplicates"), steps(T, f, "sort")
    swaps = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn") in ("std::swap", "std::iter_swap")]
    cs = T.conds(f)
    for i in f.all_nodes():
        a = assigned(f, i)
        if not a:
            continue
        m = member(f, a[0])
        if m not in ("factor", "conjugated", "id"):
            continue
        base = f.N[strip(f, a[0])]["c"][0]
        if not T.term_iter(f, base) and not re.search(r"Monomial", ty(f, strip(f, base))):
            continue
        if m == "factor":
            v = strip(f, a[1])
            phase = False
            n = f.N[v]
            me = T.canon(f, a[0])
            if a[2] == "*=":
                phase = pp.ex(f, v) in ("-1", "-1.000000", "1", "1.000000", "complex{-1.000000, <default __i>}")
            elif a[2] == "=":
                k = n
                while k["k"] == "Call" and last(k) == "conj" or k["k"] in ("Un", "Call") and k.get("op") == "-" and len(k.get("c", ())) == 1:
                    v = strip(f, k["c"][0] if k.get("op") == "-" or not k.get("a") else k["a"][0])
                    k = f.N[v]
                phase = T.canon(f, v) == me
            if phase:
                rep.ok("factor-changed-in-place", f.short, f.loc(i), "only the phase changes")
            else:
                rep.add(path.after(f, i, zero), "factor-changed-in-place", f.short, f.loc(i), "after factors have been changed, terms that have become zero are dropped")
        else:
            flags = set()
            for j in f.all_nodes():
                b = assigned(f, j)
                if b and f.N[strip(f, b[0])]["k"] == "Ref" and "bool" in ty(f, strip(f, b[0])) and j != i:
                    wi, wj = path._pos(f, i), path._pos(f, j)
                    if wi[0] == wj[0] or pp.ex(f, b[1]) == "true" and (path.after(f, i, [j]) or path.before(f, i, [j])):
                        flags.add(T.var(f, b[0]))

            def ok(p, x):
                e = cs.get((p, x))
                if not e:
                    return True

                def skip(c, op, t):
                    n = f.N[c]
                    if n["k"] == "Ref" and not t and (n.get("v") in flags or n.get("dk") == "parm"):
                        return True
                    return sized(T, f, c, op, t)
                return not T.holds(f, e[0], e[1], skip)
            # a reordering loop: its head is what has to be reached
            ev = list(sort) + list(dup)
            for s in swaps:
                lp = loop_of(f, s)
                if lp is not None:
                    ev.append(lp)
            rep.add(bool(ev) and (path.after(f, i, ev, ok)), "conjugation-changed-in-place", f.short, f.loc(i), "after conjugation has been changed the order is restored and equal terms are joined")
    for s in swaps:
        n = f.N[s]
        if len(n.get("a", ())) != 2:
            continue
        vs = [T.var(f, f.N[strip(f, y)]["c"][0]) if f.N[strip(f, y)].get("c") else None for y in n["a"]]
        if None in vs or not all(re.search("Monomial", ty(f, strip(f, y))) for y in n["a"]):
            continue
        a, b = vs

        def conj(v, val):
            def t(c, op, tr):
                m = f.N[c]
                return tr == val and m["k"] == "Mem" and m.get("n") == "conjugated" and T.var(f, m["c"][0]) == v
            return t
        good = T.forced(f, s, conj(a, True)) and T.forced(f, s, conj(b, False)) and T.forced(f, s, field_eq(T, f, "id"))
        rep.add(good, "plain-before-conjugate", f.short, f.loc(s), "neighbours change places exactly if they are of one symbol and the conjugated one comes first")


def loop_of(f, i):
    """a node of the condition of the innermost loop round i"""
    par = f.parents()
    while i is not None:
        n = f.N[i]
        if n["k"] in ("While", "For", "Do", "RangeFor"):
            for b in f.cfg.reach:
                if f.cfg.b[b].get("t") == i:
                    e = [x for x in f.cfg.b[b]["e"]]
                    if e:
                        return e[-1]
            c = n.get("cond", -1)
            return c if c >= 0 else i
        i = par.get(i)
    return None


# ---------------------------------------------------------------- users of in-place changes that leave the form open
def callers(T, rep, f):
    for i in calls(f, "fix_cc_in_place") + calls(f, "fix_cc"):
        n = f.N[i]
        if not re.match(r"Moment::Polynomial::", n.get("fn", "")) or len(n.get("a", ())) < 2:
            continue
        s = pp.ex(f, n["a"][1])
        if s == "true":
            rep.ok("settled-canonical", f.short, f.loc(i), "asks for canonical form")
            continue
        if f.short == "Polynomial::fix_cc" and T.var(f, n["a"][1]) in {p["v"] for p in f.get("params") or ()}:
            rep.ok("settled-canonical", f.short, f.loc(i), "passes the caller's choice on")
            continue
        sort, zero = calls(f, "sort"), calls(f, "remove_zeros")
        rep.add(path.after(f, i, zero) and bool(zero), "settled-canonical", f.short, f.loc(i), "symbols are settled without asking for canonical form, so the caller restores it")


# ---------------------------------------------------------------- constructions where a factory is at hand
def construct(T, rep, f):
    top = f
    while top.get("lambda") and T.p.F.get(top.get("parent", "")) is not None:
        top = T.p.F.get(top.get("parent", ""))
    infac = bool(re.match(r"Moment::(\w+::)*\w*PolynomialFactory", top.get("cls") or ""))
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Ctor" or n.get("cls") != "Moment::Polynomial" or not n.get("a") or not STO.search(ty(f, n["a"][0])):
            continue
        if elements(f, n["a"][0]):
            continue
        if (f.get("cls") or "") == "Moment::Polynomial" and f.get("ctor"):
            continue
        order = [a for a in n["a"][1:] if re.search(r"Compar|Less|Order|comparator", ty(f, a)) or "order" in pp.ex(f, a)]
        dflt = not order or any(f.N[y]["k"] == "DefArg" for y in f.walk(order[0]))
        at_hand = infac or any(re.search(r"Moment::\w*PolynomialFactory\b", f.T[p["t"]] if "t" in p else "") for p in top.get("params") or ()) \
            or any(f.N[j]["k"] == "Mem" and re.search(r"Moment::\w*PolynomialFactory\b", ty(f, j)) for j in f.all_nodes())
        if at_hand and indices(T, f, T.var(f, n["a"][0])):
            rep.note("terms over positions, not symbols", f.short, f.loc(i))
        elif at_hand:
            rep.add(not dflt, "own-ordering", f.short, f.loc(i), "a list of terms becomes a polynomial through the ordering of the factory at hand")
        else:
            rep.note("no factory at hand", f.short, f.loc(i))


def indices(T, f, v):
    """all terms put into the list are named by unsigned positions, not by symbol numbers"""
    seen = False
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and last(n) in PUSH and n.get("o", -1) >= 0 and T.var(f, n["o"]) == v and v is not None:
            seen = True
            if len(n["a"]) < 2 or not re.search(r"unsigned|size_t", ty(f, strip(f, n["a"][0]))):
                return False
    return seen
