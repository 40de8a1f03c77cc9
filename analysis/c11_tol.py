"""C11: the caller's zero tolerance governs every approximate decision made for them."""
import re
import ir, core, dep, pp, witness

RULE = ("tolerance threading: tolerance parameters and fields are found by flow into the floating point comparison functions; wherever a tolerance is in scope "
        "(parameter, own stored tolerance, polynomial factory) every tolerance argument must be that tolerance, unaltered, and coefficients are never compared exactly")
TECHNIQUE = "interprocedural flow of tolerance parameters (fixpoint over call arguments) with dependence check per argument; compile-time witnesses for the comparison functions"
LEVEL = "other"
FLOATS = ("approximately_equal", "approximately_same_norm", "approximately_zero", "essentially_equal", "definitely_greater_than", "definitely_less_than",
          "approximately_compare", "approximately_real", "approximately_imaginary", "real_or_imaginary_if_close")
NAME = re.compile(r"toler|eps|(^|_)tol(_|$)|^mult$", re.I)
FUTIL = "float_utils.h"


def dbl(t):
    return core.strip_cv(t.replace("&", "")).strip() in ("double",)


class Tol:
    def __init__(self, prog):
        self.prog = prog
        self.parm = {}            # function key -> set of parameter indices
        self.field = set()        # (record, field)
        self.cn = {}
        self.lam = {}
        F = [f for f in prog.live() if f.rel.startswith("cpp")]
        self.F = F
        for f in F:
            s = set()
            for i, p in enumerate(f.params):
                if dbl(f.T[p["t"]]) and (NAME.search(p["n"] or "") or f.short in FLOATS and f.rel.endswith(FUTIL) and i == len(f.params) - 1 and i > 0):
                    s.add(i)
            self.parm[f.key] = s
        for n, r in prog.R.items():
            for x in r.get("fields", []):
                if dbl(x["t"] if isinstance(x["t"], str) else str(x["t"])) and NAME.search(x["n"]):
                    self.field.add(x["n"])
        self.field.add("zero_tolerance")
        changed = True
        while changed:
            changed = False
            for f in F:
                for a, q, c in self.args(f):
                    if a is None:
                        continue
                    t = self.canon(f)(a)
                    if t[0] == "v":
                        for i, p in enumerate(f.params):
                            if p["v"] == t[1] and dbl(f.T[p["t"]]) and i not in self.parm[f.key]:
                                self.parm[f.key].add(i)
                                changed = True

    def canon(self, f):
        c = self.cn.get(f.key)
        if c is None:
            c = self.cn[f.key] = core.Canon(f)
        return c

    def tolpos(self, f, n):
        """argument positions of call or construction n that are tolerances"""
        ks = self.prog.targets(n) if n["k"] == "Call" else ([n["f"]] if n.get("f") else [])
        out = {}
        for k in ks:
            k = k.key if hasattr(k, "key") else k
            for i in self.parm.get(k, ()):
                out[i] = k
        return out

    def args(self, f):
        """(argument node, position, call node) of every tolerance argument in f"""
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] not in ("Call", "Ctor"):
                continue
            al = n.get("a", [])
            for p, k in self.tolpos(f, n).items():
                if p < len(al):
                    yield al[p], p, i

    def owners(self, f):
        """f and the functions whose parameters and object f can see (enclosing functions of a lambda)"""
        out = [f]
        while f is not None and f.get("lambda"):
            f = self.prog.F.get(f.get("parent", ""))
            if f is None or f in out:
                break
            out.append(f)
        return out

    def parm_vars(self, f):
        s = set()
        for g in self.owners(f):
            for i in self.parm.get(g.key, ()):
                s.add(g.params[i]["v"])
        return s

    def factory(self, f):
        """is a polynomial factory at hand in f"""
        p = self.prog
        for g in self.owners(f):
            for q in g.params:
                t = g.T[q["t"]]
                if "PolynomialFactory" in t:
                    return True
            c = g.get("cls") or ""
            if c and (p.is_a(c, "Moment::PolynomialFactory") or p.is_a(c, "Moment::MatrixSystem")):
                return True
            if c:
                for b in [c] + list(self.bases(c)):
                    for x in p.R.get(b, {}).get("fields", []):
                        if "PolynomialFactory" in x["t"]:
                            return True
        return False

    def bases(self, c):
        return [b for b in self.prog.R if b != c and self.prog.is_a(c, b)]

    def own_field(self, f):
        p = self.prog
        for g in self.owners(f):
            c = g.get("cls") or ""
            if not c:
                continue
            for b in [c] + list(self.bases(c)):
                for x in p.R.get(b, {}).get("fields", []):
                    if x["n"] in self.field and dbl(x["t"]):
                        return True
        return False

    def scope(self, f):
        if self.parm_vars(f):
            return "its tolerance parameter"
        if self.own_field(f):
            return "its stored tolerance"
        if self.factory(f):
            return "the polynomial factory's tolerance"
        return None

    def is_tol(self, f, t):
        if t[0] == "v":
            return t[1] in self.parm_vars(f)
        if t[0] == ".":
            return t[2].rsplit("::", 1)[-1] in self.field
        if t[0] == "?:":
            return self.is_tol(f, t[2]) and self.is_tol(f, t[3])
        if t[0] == "new" and len(t) == 3:
            return self.is_tol(f, t[2])
        return False

    def depends(self, f, t):
        return any(self.is_tol(f, s) for s in core.subterms(t) if isinstance(s, tuple) and s)


def check(prog, rep, tier):
    T = Tol(prog)
    for f in T.F:
        sc = T.scope(f)
        if f.rel.endswith(FUTIL):
            arith(T, rep, f)
            continue
        if f.get("defaulted") or f.body is None or f.body < 0 and not f.get("inits"):
            continue
        for a, p, c in T.args(f):
            if not sc:
                continue
            key = "%s: %s" % (f.short, what(f, c))
            n = f.N[a]
            if n["k"] == "DefArg":
                if any("ostream" in f.T[q["t"]] for q in f.params) or base_init(f, c) and not T.parm_vars(f):
                    continue                  # text output; base object made before there is a factory
                if cg_poly(f, c) or replaced(T, f, c):
                    rep.note("tolerance: default accepted in %s (%s)" % (f.short, f.loc(c)))
                    continue
                rep.bad("tolerance-used", key, f.loc(c), "`%s` falls back on the default tolerance although %s is at hand" % (pp.ex(f, c)[:90], sc))
                continue
            t = T.canon(f)(a)
            if T.is_tol(f, t):
                rep.ok("tolerance-used", key, f.loc(c))
            elif t[0] in ("int", "flt"):
                rep.bad("tolerance-used", key, f.loc(c), "`%s` uses the constant %s although %s is at hand" % (pp.ex(f, c)[:90], t[1], sc))
            elif T.depends(f, t):
                if any(s[0] == "op" and s[1] in "+-*/" and T.depends(f, s) for s in core.subterms(t) if isinstance(s, tuple) and s):
                    rep.bad("tolerance-used", key, f.loc(c), "`%s` alters the tolerance it was given" % pp.ex(f, c)[:90])
                else:
                    rep.note("tolerance: %s at %s not understood" % (pp.ex(f, a)[:60], f.loc(c)))
            elif any(True for g, cn, x in dep.closure(f, a) if g.N[x]["k"] == "Mem" and g.N[x]["n"].rsplit("::", 1)[-1] in T.field
                     or g.N[x]["k"] == "Ref" and g.N[x].get("v") in T.parm_vars(f)):
                rep.ok("tolerance-used", key, f.loc(c))
            else:
                rep.bad("tolerance-used", key, f.loc(c), "the tolerance given to `%s` does not come from %s" % (pp.ex(f, c)[:90], sc))
        params(T, rep, f)
        exact(T, rep, f, sc)
    stored(T, prog, rep)
    floats(prog, rep)
    rep.floor("tolerance-used", 30)


def what(f, c):
    n = f.N[c]
    s = n.get("fn") or n.get("cls") or n["k"]
    return s.rsplit("::", 1)[-1]


def cg_poly(f, c):
    """polynomial over Collins-Gisin indices (not symbols): built into the cgPolynomial part of a tensor element"""
    n = f.N[c]
    if n["k"] != "Ctor" or not n.get("cls", "").endswith("Polynomial"):
        return False
    par = f.parents()
    p = par.get(c)
    ch = c
    while p is not None:
        m = f.N[p]
        if m["k"] == "Ctor" and m.get("cls", "").endswith("Polynomial") or m["k"] in ("Cast", "Temp", "Bind", "InitList"):
            ch, p = p, par.get(p)
            continue
        if m["k"] == "Ctor":
            return m.get("cls", "").endswith("Element") and m.get("a") and m["a"][0] == ch
        if m["k"] == "Decl":
            # a local that is then handed to the element
            vs = {v["v"] for v in m["vars"] if v.get("i") == ch}
            for x in f.all_nodes():
                q = f.N[x]
                if q["k"] == "Ctor" and q.get("cls", "").endswith("Element") and q.get("a"):
                    r = core.Canon(f)(q["a"][0])
                    if any(s == ("v", v) for v in vs for s in core.subterms(r)) or mention_decl(f, q["a"][0], vs):
                        return True
            return False
        return False
    return False


def mention_decl(f, a, vs):
    return any(f.N[x]["k"] == "Ref" and f.N[x].get("v") in vs for x in f.walk(a))


def base_init(f, c):
    return f.get("ctor") and any("base" in i and i.get("i") is not None and i["i"] >= 0 and c in set(f.walk(i["i"])) for i in f.get("inits") or [])


def replaced(T, f, c):
    """the base matrix system is made with the default factory, which the same constructor replaces by one with its tolerance"""
    n = f.N[c]
    if not f.get("ctor") or n["k"] != "Ctor":
        return False
    if not any(i.get("i") == c or c in set(f.walk(i["i"])) for i in f.get("inits") or [] if i.get("i") is not None and i["i"] >= 0 and ("base" in i)):
        return False
    for x in f.all_nodes():
        m = f.N[x]
        if m["k"] == "Call" and m.get("fn", "").rsplit("::", 1)[-1] == "replace_polynomial_factory":
            for g, cn, y in dep.closure(f, x):
                if g.N[y]["k"] == "Ref" and g.N[y].get("v") in T.parm_vars(f):
                    return True
    return False


def params(T, rep, f):
    """a tolerance that was given must reach a decision"""
    for i in sorted(T.parm.get(f.key, ())):
        p = f.params[i]
        if not p["n"]:
            continue
        v = p["v"]
        used = False
        refs = [x for x in f.all_nodes() if f.N[x]["k"] == "Ref" and f.N[x].get("v") == v]
        lam = [T.prog.F[k] for k in T.prog.lambdas_of.get(f.key, [])]
        key = "%s: parameter %s" % (f.short, p["n"])
        if f.name.startswith("std::"):
            continue
        for g in [f] + list(lam):
            for a, q, c in T.args(g):
                if mention_decl(g, a, {v}) or any(h.N[y].get("v") == v for h, cn, y in dep.closure(g, a) if h.N[y]["k"] == "Ref"):
                    used = True
                    break
            if used:
                break
        if not used:
            # stored in a field, compared with, or handed to code the analysis does not see
            par = f.parents()
            for it in f.get("inits") or []:
                if it.get("i") is not None and it["i"] >= 0 and mention_decl(f, it["i"], {v}):
                    used = True
            for x in refs:
                q = par.get(x)
                while q is not None and f.N[q]["k"] in ("Cast", "Un"):
                    q = par.get(q)
                if q is None:
                    continue
                m = f.N[q]
                if m["k"] in ("Call", "Ctor"):
                    k = [z for z in T.prog.targets(m)] if m["k"] == "Call" else []
                    if not k or x in set(sum((list(f.walk(z)) for z in m.get("a", [])), [])):
                        used = True
                if m["k"] in ("Bin", "Assign", "InitList"):
                    used = True
        rep.add(used, "tolerance-flows", key, f.loc(), "" if used else "%s is given the tolerance %s but no decision depends on it" % (f.short, p["n"]))


def cplx(t):
    t = core.strip_cv(t.replace("&", "")).strip()
    return t in ("double", "std::complex<double>", "std::complex<_Tp>") or t.startswith("std::complex<double")


def literal(f, a):
    while f.N[a]["k"] in ("Cast", "Ctor", "Un") and (f.N[a].get("a") or f.kids(a)):
        k = f.kids(a)
        k = [x for x in k if f.N[x]["k"] != "DefArg"]
        if len(k) != 1:
            break
        a = k[0]
    return f.N[a]["k"] in ("Flt", "Int", "Float", "Lit")


def exact(T, rep, f, sc):
    if not sc:
        return
    for i in f.all_nodes():
        n = f.N[i]
        ops = None
        if n["k"] == "Bin" and n.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            ops = n["c"]
        elif n["k"] == "Call" and n.get("op") in ("==", "!="):
            ops = ([n["o"]] if n.get("o", -1) is not None and n.get("o", -1) >= 0 else []) + n.get("a", [])
        if not ops or len(ops) != 2:
            continue
        key = "%s: %s" % (f.short, n["op"])
        ts = [f.ty(x) for x in ops]
        poly = any(re.search(r"(^|::)(Monomial|Polynomial)$", core.strip_cv(t.replace("&", "")).strip()) for t in ts)
        if n["op"] in ("==", "!=") and poly and f.short not in ("operator==", "operator!="):
            rep.note("tolerance: %s compares polynomials with the default tolerance at %s" % (f.short, f.loc(i)))
            continue
        if not any(cplx(t) for t in ts):
            continue
        cn = T.canon(f)
        tt = [cn(x) for x in ops]
        if any(T.depends(f, t) for t in tt):
            rep.ok("no-exact-compare", key, f.loc(i))
            continue
        if n["op"] in ("==", "!="):
            rep.bad("no-exact-compare", key, f.loc(i), "`%s` compares coefficients exactly although %s is at hand" % (pp.ex(f, i)[:90], sc))
            continue
        lits = [x for x in ops if literal(f, x)]
        if lits:
            t = cn(lits[0])
            z = t in (("int", 0), ("flt", "0"), ("flt", "0.0"), ("flt", "0.000000")) or t[0] == "flt" and float(t[1]) == 0
            o = [x for x in ops if x not in lits]
            mag = any(s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("abs", "norm", "fabs") for x in o for s in [cn(x)])
            if z and not mag:
                rep.ok("no-exact-compare", key, f.loc(i))        # a sign test
            else:
                rep.bad("no-exact-compare", key, f.loc(i), "`%s` judges a magnitude by a constant although %s is at hand" % (pp.ex(f, i)[:90], sc))
        else:
            rep.ok("no-exact-compare", key, f.loc(i))


def stored(T, prog, rep):
    """constructors that are given a tolerance store exactly it"""
    for f in T.F:
        if not f.get("ctor"):
            continue
        pv = T.parm_vars(f)
        for it in f.get("inits") or []:
            fd = (it.get("fd") or "").rsplit("::", 1)[-1]
            if fd not in T.field or it.get("i") is None or it["i"] < 0:
                continue
            if not dbl(f.ty(it["i"])):
                continue
            t = T.canon(f)(it["i"])
            if not pv:
                if t[0] in ("int", "flt") and T.scope(f) != "its stored tolerance":
                    rep.bad("tolerance-stored", "%s: %s" % (f.short, fd), f.loc(), "stored tolerance is the constant %s" % (t[1],))
                continue
            good = T.is_tol(f, t)
            rep.add(good, "tolerance-stored", "%s: %s" % (f.short, fd), f.loc(), "" if good else "the tolerance stored by the constructor is `%s`, not the one it was given" % pp.ex(f, it["i"])[:60])


def arith(T, rep, f):
    """inside float_utils: each function's result depends on its tolerance"""
    for i in sorted(T.parm.get(f.key, ())):
        v = f.params[i]["v"]
        used = any(f.N[x]["k"] == "Ref" and f.N[x].get("v") == v for x in f.all_nodes())
        rep.add(used, "tolerance-flows", "%s: parameter %s" % (f.short, f.params[i]["n"]), f.loc(), "" if used else "%s ignores its tolerance" % f.short)
    for a, p, c in T.args(f):
        t = T.canon(f)(a)
        rep.add(T.is_tol(f, t), "tolerance-used", "%s: %s" % (f.short, what(f, c)), f.loc(c), "`%s` does not use the tolerance it was given" % pp.ex(f, c)[:90])


CODE = r'''
#include "utilities/float_utils.h"
#include <complex>
using namespace Moment;
using C = std::complex<double>;
constexpr double e = std::numeric_limits<double>::epsilon();
// m: multiplier; a little inside and a little outside of the band
constexpr bool band_zero(double m) {
    return approximately_zero(0.9*m*e, m) && approximately_zero(-0.9*m*e, m) && !approximately_zero(1.1*m*e, m) && !approximately_zero(-1.1*m*e, m);
}
constexpr bool band_czero(double m) {
    return approximately_zero(C{0.9*m*e, 0}, m) && approximately_zero(C{0, -0.9*m*e}, m) && approximately_zero(C{0.6*m*e, 0.6*m*e}, m)
        && !approximately_zero(C{1.1*m*e, 0}, m) && !approximately_zero(C{0, -1.1*m*e}, m) && !approximately_zero(C{0.8*m*e, -0.8*m*e}, m);
}
constexpr bool band_ceq(double m) {
    const C z{1.0, -2.0};
    return approximately_equal(z, z, m) && !approximately_equal(z, z + C{4*m*e, 0}, m) && !approximately_equal(z, z + C{0, 8*m*e}, m)
        && !approximately_equal(C{1, 1}, C{1, -1}, m) && !approximately_equal(C{1, 1}, C{-1, 1}, m);
}
constexpr bool band_eq(double m) {
    return approximately_equal(8.0, 8.0*(1 + 0.9*m*e), m) == true && !approximately_equal(8.0, 8.0*(1 + (1.1*m+1)*e), m)
        && !approximately_equal(8.0, -8.0, m) && approximately_equal(-8.0, -8.0*(1 + 0.9*m*e), m);
}
constexpr bool band_real(double m) {
    return approximately_real(C{1.0, 0.9*m*e}, m) && approximately_real(C{0.0, -0.9*m*e}, m) && !approximately_real(C{0.0, 1.1*m*e}, m) && !approximately_real(C{1.0, -1.1*m*e}, m);
}
constexpr bool band_imag(double m) {
    return approximately_imaginary(C{0.9*m*e, 1.0}, m) && approximately_imaginary(C{-0.9*m*e, 0}, m) && !approximately_imaginary(C{1.1*m*e, 0.0}, m) && !approximately_imaginary(C{-1.1*m*e, 2.0}, m);
}
constexpr bool order(double m) {
    const double x = 8.0, y = 8.0*(1 + (1.1*m+1)*e), w = 8.0*(1 + 0.9*m*e);
    return approximately_compare(x, y, m) == -1 && approximately_compare(y, x, m) == 1 && approximately_compare(x, w, m) == 0 && approximately_compare(w, x, m) == 0
        && definitely_less_than(x, y, m) && !definitely_less_than(y, x, m) && !definitely_less_than(x, w, m) && !definitely_less_than(w, x, m)
        && definitely_greater_than(y, x, m) && !definitely_greater_than(x, y, m) && !definitely_greater_than(w, x, m) && !definitely_greater_than(x, w, m);
}
constexpr bool magnitude(double x) { return Moment::abs(x) == Moment::abs(-x) && Moment::abs(x) >= 0; }
template<bool (*F)(double)> constexpr bool all() { return F(1.0) && F(10.0) && F(100.0) && F(1000.0) && F(0x1p20); }
static_assert(all<&band_zero>(), "approximately_zero");
static_assert(all<&band_czero>(), "approximately_zero (complex)");
static_assert(all<&band_ceq>(), "approximately_equal (complex)");
static_assert(all<&band_eq>(), "approximately_equal");
static_assert(all<&band_real>(), "approximately_real");
static_assert(all<&band_imag>(), "approximately_imaginary");
static_assert(all<&order>(), "approximately_compare");
static_assert(all<&magnitude>(), "abs");
'''


def floats(prog, rep):
    f = next((g for g in prog.live() if g.rel.endswith(FUTIL)), None)
    loc = f.loc() if f else "cpp/lib_moment/utilities/float_utils.h"
    witness.obligations(rep, "tolerance-band", "float_utils", loc, CODE,
                        ["approximately_zero", "approximately_zero (complex)", "approximately_equal (complex)", "approximately_equal", "approximately_real",
                         "approximately_imaginary", "approximately_compare", "abs"],
                        "%s does not accept exactly the values within the tolerance it is given, for multipliers 1 to 2^20", gcc=True)
