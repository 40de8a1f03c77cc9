"""C06: conjugated occurrences are always treated as conjugates."""
import ir, core, pp

RULE = ("polarity of every use of a moment's conjugation flag: must-facts at each resolution of a symbol's word, each construction of a scaled moment, "
        "each conjugation and each i-weight; constant substitution of the flag into the weight expressions; path search from the flag's branch to the conjugation it demands")
LEVEL = "other"
FLAGS = ("conjugated", "is_conjugated")
MONO = "Moment::Monomial"


def flagterm(t):
    """the occurrence a canonical term is the conjugation flag of, or None"""
    if t[0] == "." and t[2] in FLAGS:
        return t[1]
    if t[0] == "." and t[2] in ("<1>", "second") and t[1][0] == "call" and str(t[1][1]).endswith("hash_to_index"):
        return t[1]
    return None


def idterm(t):
    """the occurrence whose symbol number this is"""
    if t[0] == "." and t[2] == "id":
        b = t[1]
        if b[0] == "." and b[2] == "symbol":
            return b[1]                          # lookup->id
        if b[0] == "idx":
            return idterm(b[2]) or b             # table[x].Id(), or moments[x].id
        return b
    if t[0] == "." and t[2] in ("<0>", "first") and t[1][0] == "call" and str(t[1][1]).endswith("hash_to_index"):
        return t[1]
    return None


def is_mono_flag(t):
    return t[0] == "." and t[2] in FLAGS


def fact_of(st, occ):
    """True/False if the facts settle the flag of an occurrence, else None"""
    for a, t in st or ():
        x = flagterm(a)
        if x is not None and x == occ:
            return t
    return None


def hermitian_fact(st):
    return any(t and a[0] == "." and a[2] == "hermitian" for a, t in st or ()) or any(t and a[0] == "call" and str(a[1]).endswith("is_hermitian") for a, t in st or ())


def factors(t):
    """multiplicands of a canonical product"""
    if t[0] == "op" and t[1] in ("*", "/"):
        return factors(t[2]) + factors(t[3])
    if t[0] == "neg":
        return factors(t[1])
    if t[0] == "new" and "complex" in str(t[1]) and len(t) == 3:
        return factors(t[2])
    return [t]


def is_conj(t):
    return t[0] == "call" and t[1] == "std::conj"


def strip_conj(t):
    k = 0
    while is_conj(t):
        t = t[3]
        k ^= 1
    return t, k


def conj_parity(ft, occ):
    """parity with which the occurrence's own scale or sign enters the product; None if it does not enter visibly"""
    res = None
    for m in factors(ft):
        x, k = strip_conj(m)
        own = (x[0] == "." and x[2] == "factor" and x[1] == occ)
        sign = any(s[0] == "call" and str(s[1]).endswith("to_scalar") for s in core.subterms(x))
        if own or (sign and occ[0] == "call"):
            res = k if res is None else res ^ k
    return res


def foreign_conj(ft, occ):
    """a multiplicand that is not the occurrence's own and is conjugated"""
    for m in factors(ft):
        x, k = strip_conj(m)
        own = (x[0] == "." and x[2] == "factor" and x[1] == occ)
        sign = any(s[0] == "call" and str(s[1]).endswith("to_scalar") for s in core.subterms(x))
        if k and not own and not sign:
            return m
    return None


def contexts(prog, g, callers):
    """Canon of g at each call site that passes something to it"""
    for f, i in callers.get(g.key, ()):
        n = f.N[i]
        cn = core.Canon(f)
        yield core.Canon(g, core.call_env(cn, n, g), 1), f.loc(i)


def rev(prog):
    r = {}
    for f in prog.live():
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] in ("Call", "Ctor"):
                for t in prog.targets(n):
                    if t != f.key:
                        r.setdefault(t, []).append((f, i))
    return r


def words(prog, rep, callers):
    W = {"Moment::Symbol::sequence": False, "Moment::Symbol::sequence_conj": True, "Moment::Symbol::hash_conj": True}
    for f in prog.live():
        if not f.cfg:
            continue
        ev = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn") in W]
        if not ev:
            continue
        par = f.parents()
        todo = [(core.Canon(f), None)]
        if f.params and any(core.lval_root(f, f.N[i]["o"])[0] in {p["v"] for p in f.params} for i in ev):
            todo += list(contexts(prog, f, callers))[:20]
        for cn, where in todo:
            F = core.Facts(f, cn)
            for i in ev:
                o = cn(f.N[i]["o"])
                if o[0] != "idx":
                    continue
                occ = idterm(o[2])
                if occ is None:
                    continue
                p = par.get(i)
                while p is not None and f.N[p]["k"] == "Cast":
                    p = par.get(p)
                if p is not None and f.N[p]["k"] == "Call" and f.N[p].get("fn", "").rsplit("::", 1)[-1] in ("size", "empty", "hermitian_type", "zero"):
                    continue
                st = F.at(i)
                if st is None:
                    continue
                want = fact_of(st, occ)
                have = W[f.N[i]["fn"]]
                good = want == have or hermitian_fact(st)
                rep.add(good, "word-polarity", "%s: %s" % (f.short, f.N[i]["fn"].rsplit("::", 1)[-1]), f.loc(i),
                        "%s: %s of the symbol is taken for an occurrence that is %s" % (f.short, "the conjugate word" if have else "the plain word",
                        "conjugated" if want else "not conjugated" if want is False else "not known to be %sconjugated" % ("" if have else "un")))


def from_moment(f, nid):
    """the symbol number argument is read from a moment or from a look-up result (both carry a conjugation flag)"""
    n = f.N[nid]
    while n["k"] == "Cast" and n.get("c"):
        nid = n["c"][0]
        n = f.N[nid]
    if n["k"] == "Mem" and n["n"] == "id":
        t = f.ty(n["c"][0]) if n.get("c") and n["c"][0] >= 0 else ""
        return "Monomial" in t or "LookupResult" in t
    return True


def constructions(prog, rep):
    for f in prog.live():
        if not f.cfg or base(f) in BOTH:
            continue
        F = None
        for i in f.all_nodes():
            n = f.N[i]
            a = None
            if n["k"] == "Ctor" and n.get("cls") == MONO and len(n["a"]) == 3:
                a = n["a"]
            elif n["k"] == "Call" and n.get("fn", "").endswith("emplace_back") and len(n["a"]) == 3 and n.get("o", -1) >= 0:
                a = n["a"]
            if not a:
                continue
            F = F or core.Facts(f)
            it = F.cn(a[0])
            occ = idterm(it)
            if occ is None or occ == ("this",) or not from_moment(f, a[0]):
                continue
            st = F.at(i)
            if st is None:
                continue
            key = "%s: %s" % (f.short, pp.ex(f, a[0])[:40])
            fl = F.cn(a[2])
            ft = F.cn(a[1])
            par = None
            if flagterm(fl) is not None:
                if flagterm(fl) != occ:
                    rep.bad("moment-construction", key, f.loc(i), "%s: moment takes its symbol from one occurrence and its conjugation from another" % f.short)
                    continue
                par = 0
            elif fl[0] == "!" and flagterm(fl[1]) is not None:
                if flagterm(fl[1]) != occ:
                    rep.bad("moment-construction", key, f.loc(i), "%s: moment takes its symbol from one occurrence and its conjugation from another" % f.short)
                    continue
                par = 1
            elif fl[0] == "int":
                known = fact_of(st, occ)
                if known is not None:
                    par = int(bool(fl[1]) != known)
                elif hermitian_fact(st):
                    rep.add(not fl[1], "moment-construction", key, f.loc(i), "%s: an occurrence of a Hermitian symbol is marked as conjugated" % f.short)
                    continue
                else:
                    rep.bad("moment-construction", key, f.loc(i), "%s: moment is built from an occurrence whose conjugation flag is ignored" % f.short)
                    continue
            else:
                rep.note("%s: conjugation argument not recognised" % f.loc(i))
                continue
            cp_ = conj_parity(ft, occ)
            good = cp_ is None or cp_ == par
            rep.add(good, "moment-construction", key, f.loc(i), "%s: the symbol is %sconjugated but its own scale factor is %s" % (f.short, "" if par else "not ", "conjugated" if cp_ else "not conjugated"))
            fc = foreign_conj(ft, occ)
            if fc is not None:
                rep.bad("moment-construction", key, f.loc(i), "%s: a factor that multiplies from outside is conjugated" % f.short)


def base(f):
    return f.short.split("::(lambda")[0]


def flag_atoms(f, F):
    out = set()
    for b in f.cfg.b:
        c = core.edge_cond(f, b)
        if c is None:
            continue
        s = set()
        core.literals(F.cn(c), True, s)
        core.literals(F.cn(c), False, s)
        for a, _ in s:
            if flagterm(a) is not None:
                out.add(a)
    return out


CONJ = {"std::conj", "Moment::Polynomial::conjugate_in_place", "Moment::Polynomial::conjugate"}


def conj_events(prog, f, cn, depth=0, seen=frozenset()):
    """nodes of f whose evaluation conjugates something (directly, in a lambda, or in a small helper)"""
    out = set()
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("fn") in CONJ:
            out.add(i)
        elif n["k"] == "Assign" and n["op"] == "=":
            t = core.raw_path(f, n["c"][0], cn)
            if t[0] == "." and t[2] in FLAGS and cn(n["c"][1]) == ("!", t):
                out.add(i)
        elif n["k"] == "Lambda":
            g = prog.F.get(n["f"])
            if g and depth < 2 and conj_events(prog, g, core.Canon(g), depth + 1, seen | {f.key}):
                out.add(i)
        elif n["k"] in ("Call", "Ctor") and depth < 2:
            for t in prog.targets(n):
                g = prog.F.get(t)
                if g and t not in seen and t != f.key and len(g.N) < 120 and g.name not in CONJ and not has_flag_branch(g):
                    if conj_events(prog, g, core.Canon(g), depth + 1, seen | {f.key}):
                        out.add(i)
        elif n["k"] == "Ctor" and n.get("cls") == MONO and len(n["a"]) == 3 and (cn(n["a"][2]) == ("int", 1) or cn(n["a"][2])[0] == "!"):
            out.add(i)
    return out


def has_flag_branch(g):
    if not g.cfg:
        return False
    return bool(flag_atoms(g, _Cn(g)))


class _Cn:
    def __init__(self, f):
        self.cn = core.Canon(f)


# functions in which both polarities are produced from each occurrence, or which test for conjugate pairs
BOTH = ("Polynomial::Real", "Polynomial::Imaginary", "Polynomial::is_hermitian", "Polynomial::is_antihermitian", "Polynomial::is_conjugate",
        "Polynomial::conjugate_in_place")
# transformation of an occurrence by its symbol's image: the conjugated branch must conjugate
MUST = ("MomentRule::append_transformed", "MomentRule::reduce_monomial", "Derived::SymbolTableMap::operator()", "Derived::SymbolTableMap::inverse")


def branches(prog, rep):
    for f in prog.live():
        if not f.cfg or base(f) in BOTH or "do_create" in f.short:
            continue
        if not any(f.N[i]["k"] == "Mem" and f.N[i]["n"] in FLAGS for i in f.all_nodes()):
            continue
        F = core.Facts(f)
        atoms = flag_atoms(f, F)
        if not atoms:
            continue
        ev = conj_events(prog, f, F.cn)
        for i in ev:
            st = F.at(i)
            if st is None:
                continue
            pol = [t for a, t in st if a in atoms]
            if False in pol and True not in pol:
                rep.bad("conjugate-when-flagged", f.short + ": unflagged", f.loc(i), "%s conjugates on the branch where the occurrence is not conjugated" % f.short)
            elif True in pol:
                rep.ok("conjugate-when-flagged", f.short + ": flagged", f.loc(i))
        if f.short in MUST:
            where = {f.cfg.where[i][0] for i in ev if i in f.cfg.where}
            for b in f.cfg.b:
                c = core.edge_cond(f, b)
                if c is None:
                    continue
                for idx, s in enumerate(f.cfg.b[b]["s"]):
                    if s is None:
                        continue
                    ls = set()
                    core.literals(F.cn(c), idx == 0, ls)
                    if any(a in atoms and t for a, t in ls):
                        esc = escapes(f, s, where | loops_of(f, where, b), {b})
                        rep.add(not esc, "conjugate-when-flagged", f.short + ": must", f.loc(c), "%s: a conjugated occurrence can be transformed without conjugating its image" % f.short)
    # the transformers must look at the flag at all
    for nm in MUST:
        for f in prog.find("Moment::" + nm, need=False):
            if not any("Monomial" in f.T[p["t"]] for p in f.params) or any("Matrix" in f.T[p["t"]] for p in f.params):
                continue
            rep.add(reads_flag(prog, f.key), "flag-consulted", f.short, f.loc(), "%s never looks at the conjugation flag of the moment it transforms" % f.short)
    # scaling comes after conjugation
    for f in prog.live():
        if not f.cfg:
            continue
        cj = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn") == "Moment::Polynomial::conjugate_in_place"]
        if not cj:
            continue
        F = core.Facts(f)
        for i in cj:
            st = F.at(i)
            occs = [flagterm(a) for a, t in st or () if t and flagterm(a) is not None]
            tgt = core.lval_root(f, f.N[i]["o"])[0]
            for j in f.all_nodes():
                n = f.N[j]
                if n["k"] == "Call" and n.get("op") == "*=" and n.get("o", -1) >= 0 and core.lval_root(f, n["o"])[0] == tgt:
                    x = F.cn(n["a"][0])
                    own = x[0] == "." and x[2] == "factor" and x[1] in occs
                    if own:
                        rep.add(not reaches(f, j, i), "scale-after-conjugation", f.short, f.loc(i), "%s: the image is scaled before it is conjugated, so the scale factor is conjugated too" % f.short)


def loops_of(f, where, b):
    """blocks on a cycle through an event block that avoids the branch b: a loop over an empty sequence has nothing to conjugate"""
    out = set()
    for w in where:
        fw, st = set(), [x for x in f.cfg.succ[w]]
        while st:
            x = st.pop()
            if x in fw or x == b:
                continue
            fw.add(x)
            st.extend(f.cfg.succ[x])
        bw, st = set(), [x for x in f.cfg.pred[w]]
        while st:
            x = st.pop()
            if x in bw or x == b:
                continue
            bw.add(x)
            st.extend(f.cfg.pred[x])
        if w in fw:
            out |= fw & bw
    return out


def escapes(f, start, through, block):
    st, seen = [start], set()
    while st:
        x = st.pop()
        if x in seen or x in through or x in block:
            continue
        seen.add(x)
        if x == f.cfg.exit:
            return True
        st.extend(f.cfg.succ[x])
    return False


def reaches(f, a, b):
    wa, wb = f.cfg.where.get(a), f.cfg.where.get(b)
    if wa is None or wb is None:
        return False
    if wa[0] == wb[0] and wa[1] < wb[1]:
        return True
    st, seen = list(f.cfg.succ[wa[0]]), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == wb[0]:
            return True
        st.extend(f.cfg.succ[x])
    return False


def reads_flag(prog, key, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if key in seen or depth > 4:
        return False
    seen.add(key)
    f = prog.F.get(key)
    if f is None:
        return False
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Mem" and n["n"] in FLAGS:
            return True
        if n["k"] in ("Call", "Ctor"):
            if any(reads_flag(prog, t, depth + 1, seen) for t in prog.targets(n)):
                return True
        if n["k"] == "Lambda" and reads_flag(prog, n["f"], depth, seen):
            return True
    return False


def factor_writes(prog, rep):
    """writing the conjugate of a moment's own factor back to it, while changing that moment: its flag must flip too, unless its symbol is (anti-)Hermitian"""
    for f in prog.live():
        if not f.cfg or f.name.endswith("::(ctor)"):
            continue
        if not any(f.N[i]["k"] == "Call" and f.N[i].get("fn") == "std::conj" for i in f.all_nodes()):
            continue
        cn = core.Canon(f)
        F = None
        for j in f.all_nodes():
            n = f.N[j]
            if n["k"] not in ("Assign", "Call") or n.get("op") != "=":
                continue
            tgt = n["c"][0] if n["k"] == "Assign" else n.get("o", -1)
            if tgt is None or tgt < 0 or j not in f.cfg.where:
                continue
            p = core.raw_path(f, tgt, cn)
            if p[0] != "." or p[2] != "factor":
                continue
            obj = p[1]
            src = cn(n["c"][1] if n["k"] == "Assign" else n["a"][0])
            ms = factors(src)
            own = [k for m in ms for x, k in [strip_conj(m)] if x == p]
            if not own or not own[0]:
                continue
            fc = foreign_conj(src, obj)
            if fc is not None:
                rep.bad("factor-write", f.short + ": outside factor", f.loc(j), "%s: a factor that multiplies from outside is conjugated" % f.short)
            F = F or core.Facts(f)
            flips_ = [i for i in f.all_nodes() if f.N[i]["k"] == "Assign" and core.raw_path(f, f.N[i]["c"][0], cn) == (".", obj, "conjugated")]
            if any(reaches(f, i, j) and not reaches_around(f, i, j) for i in flips_):
                rep.ok("factor-write", f.short, f.loc(j))
                continue
            st = F.at(j) or frozenset()
            neg = {i for i in f.all_nodes() if i != j and negates_factor(f, cn, i, obj)}
            bad = unflipped(f, F, j, set(flips_), neg, st, has_neg(src))
            rep.add(not bad, "factor-write", f.short, f.loc(j), "%s: %s" % (f.short, bad))


def has_neg(t):
    if t[0] == "neg":
        return not has_neg(t[1])
    if t[0] == "op" and t[1] in "*/":
        return has_neg(t[2]) != has_neg(t[3])
    if t[0] == "int":
        return t[1] < 0
    if t[0] == "flt":
        return str(t[1]).startswith("-")
    return False


def unflipped(f, F, j, flips_, neg, st, negd0):
    """path from the conjugating write to the end of the element's processing on which the flag is not flipped although the symbol may be complex"""
    start = f.cfg.where[j]
    for l in st:
        if l[1] and l[0][0] == "." and l[0][2] == "hermitian":
            return None
    todo = [(start[0], start[1] + 1, any(l[1] and l[0][0] == "." and l[0][2] == "antihermitian" for l in st), negd0)]
    seen = set()
    while todo:
        b, k, anti, negd = todo.pop()
        if (b, k, anti, negd) in seen:
            continue
        seen.add((b, k, anti, negd))
        stop = False
        for e in f.cfg.b[b]["e"][k:]:
            if e in flips_:
                stop = True
                break
            if e in neg:
                negd = True
        if stop:
            if anti and not negd:
                pass
            continue
        if b == start[0] and k == 0 or b == f.cfg.exit:
            if anti and negd:
                continue
            return "the factor of an anti-Hermitian moment is conjugated without changing its sign" if anti else "the factor of a moment is conjugated on a path where its conjugation flag is not flipped"
        c = core.edge_cond(f, b)
        for idx, x in enumerate(f.cfg.b[b]["s"]):
            if x is None:
                continue
            a2 = anti
            if c is not None:
                ls = set()
                core.literals(F.cn(c), idx == 0, ls)
                if any(t and l[0] == "." and l[2] == "hermitian" for l, t in ls):
                    continue
                if any(t and l[0] == "." and l[2] == "antihermitian" for l, t in ls):
                    a2 = True
            todo.append((x, 0, a2, negd))
    return None


def printing(prog, rep):
    """textual forms: the star is written exactly for conjugated occurrences, and flags are handed on"""
    for f in prog.live():
        if not f.cfg:
            continue
        last = f.name.rsplit("::", 1)[-1]
        bp = [p for p in f.params if p.get("n") == "conjugated" and f.T[p["t"]].replace("const ", "") == "bool"]
        own = None
        if f.name.startswith("Moment::Monomial::format_as_symbol_id"):
            own = [(".", ("this",), "conjugated")]
        elif last == "format_sequence_from_symbol_id" and f.params and len(f.params) == 3:
            own = [("v", f.params[2]["v"])]
        if own is None and not bp:
            continue
        F = core.Facts(f)
        if own:
            star = []
            hand = []
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("op") == "<<":
                    args = list(n["a"])
                    if any(is_star(f, a) for a in args):
                        st = F.at(i)
                        if st is not None:
                            star.append((i, [t for a, t in st if a in own]))
                if n["k"] == "Call" and n.get("fn", "").endswith("format_sequence_from_symbol_id") and len(n["a"]) == 3:
                    hand.append(i)
                if n["k"] == "Ctor" and n.get("cls") == MONO and len(n["a"]) == 3:
                    st = F.at(i)
                    t = F.cn(n["a"][2])
                    if st is None:
                        continue
                    pol = [x for a, x in st if a in own]
                    if t in own:
                        rep.ok("printed-polarity", f.short + ": moment", f.loc(i))
                    elif t[0] == "int" and pol:
                        rep.add(bool(t[1]) == pol[0], "printed-polarity", f.short + ": moment", f.loc(i), "%s prints a moment of the opposite conjugation" % f.short)
                    elif t[0] == "int":
                        rep.bad("printed-polarity", f.short + ": moment", f.loc(i), "%s prints a moment without regard to its conjugation" % f.short)
                if n["k"] == "Call" and n.get("fn", "").endswith("SymbolTableMap::inverse") and len(n["a"]) == 1 and "Monomial" not in f.ty(n["a"][0]):
                    st = F.at(i)
                    if st is not None:
                        rep.add(any(a in own and not t for a, t in st), "printed-polarity", f.short + ": plain image", f.loc(i), "%s prints the plain image of an occurrence that may be conjugated" % f.short)
            for i in hand:
                t = F.cn(f.N[i]["a"][2])
                st = F.at(i) or ()
                pol = [x for a, x in st if a in own]
                rep.add(t in own or (t[0] == "int" and pol and bool(t[1]) == pol[0]), "printed-polarity", f.short + ": hand-on", f.loc(i), "%s does not hand on the conjugation of the moment it prints" % f.short)
            if not hand or star:
                marked = [i for i, p in star if True in p]
                if f.name.startswith("Moment::Monomial::format_as_symbol_id") or f.name == "Moment::Context::format_sequence_from_symbol_id":
                    deep = marked or star_in_helper(prog, f, F, own)
                    rep.add(bool(deep), "printed-polarity", f.short + ": star", f.loc(), "%s does not mark a conjugated moment" % f.short)
                for i, p in star:
                    if False in p and True not in p:
                        rep.bad("printed-polarity", f.short + ": star", f.loc(i), "%s marks an unconjugated moment as conjugated" % f.short)
    # other users of format_sequence_from_symbol_id hand on the flag of the moment whose number they pass
    for f in prog.live():
        if not f.cfg:
            continue
        F = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("fn", "").endswith("format_sequence_from_symbol_id") and len(n["a"]) == 3:
                F = F or core.Facts(f)
                occ = idterm(F.cn(n["a"][1]))
                if occ is None:
                    continue
                t = F.cn(n["a"][2])
                st = F.at(i) or ()
                known = fact_of(st, occ)
                ok = flagterm(t) == occ or (t[0] == "int" and known is not None and bool(t[1]) == known) or t[0] == "v"
                if "Monomial" in repr(f.ty(f.N[i]["a"][1])) or f.name.startswith("Moment::Monomial::"):
                    rep.add(ok, "printed-polarity", f.short + ": hand-on", f.loc(i), "%s does not hand on the conjugation of the moment it prints" % f.short)


def strip(f, i):
    while f.N[i]["k"] in ("Cast", "Paren") and f.N[i].get("c"):
        i = f.N[i]["c"][0]
    return i


def is_star(f, a):
    n = f.N[strip(f, a)]
    return n["k"] == "Str" and n.get("val") == "*" or n["k"] == "Chr" and n.get("val") == 42


def star_in_helper(prog, f, F, own):
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call":
            for t in prog.targets(n):
                g = prog.F.get(t)
                if g and (any(F.cn(a) in own for a in n["a"]) or any(a in own and tt for a, tt in F.at(i) or ()) or any("Monomial" in f.ty(a) for a in n["a"]) or n.get("o", -1) >= 0 and F.cn(n["o"]) == ("this",)):
                    if any(is_star(g, j) for j in g.all_nodes()):
                        return True
        if n["k"] == "Cond":
            c = F.cn(n["c"][0])
            if c in own and any(is_star(f, x) for x in n["c"][1:2]):
                return True
    return False


def map_tables(prog, rep):
    """images are conjugated with the symbol table they live in: forward images in the target table, inverse images in the origin table"""
    for nm, fld in (("operator()", "target_symbols"), ("inverse", "origin_symbols")):
        for f in prog.find("Moment::Derived::SymbolTableMap::" + nm, need=False):
            cn = core.Canon(f)
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("fn") == "Moment::Polynomial::conjugate_in_place":
                    t = cn(n["a"][0])
                    if t[0] == "." and t[2] in ("target_symbols", "origin_symbols"):
                        rep.add(t[2] == fld, "image-table", f.short, f.loc(i), "%s conjugates an image with the symbol table of the wrong side" % f.short)


def flips(prog, rep):
    """an in-place flip of the flag goes together with conjugation of the factor; clearing needs a (anti-)Hermitian symbol"""
    for f in prog.live():
        if not f.cfg or f.get("kind") == "ctor" or f.name.endswith("::(ctor)"):
            continue
        F = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Assign" or n["op"] != "=":
                continue
            l = f.N[n["c"][0]]
            if l["k"] != "Mem" or l["n"] != "conjugated":
                continue
            F = F or core.Facts(f)
            t = core.raw_path(f, n["c"][0], F.cn)
            obj = t[1]
            r = F.cn(n["c"][1])
            st = F.at(i)
            if st is None:
                continue
            if r == ("!", t):
                conj = [j for j in f.all_nodes() if f.N[j]["k"] in ("Assign", "Call") and writes_conj(f, F.cn, j, obj)]
                ok = any(reaches(f, j, i) and not reaches_around(f, j, i) or always_after(f, i, j) for j in conj)
                rep.add(ok, "flip-with-factor", f.short, f.loc(i), "%s flips the conjugation of a moment on a path that does not conjugate its factor" % f.short)
            elif r == ("int", 0):
                zero = any(tt and a[0] == "eq" and ("int", 0) in a[1:] and (".", obj, "id") in a[1:] for a, tt in st) or \
                    any(tt and a[0] == "call" and "approximately_zero" in str(a[1]) for a, tt in st) or \
                    any(f.N[j]["k"] == "Assign" and F.cn(f.N[j]["c"][1]) == ("int", 0) and core.raw_path(f, f.N[j]["c"][0], F.cn) == (".", obj, "id") and f.cfg.where.get(j, (None,))[0] == f.cfg.where[i][0] for j in f.all_nodes())
                herm = any(tt and a[0] == "." and a[2] == "hermitian" for a, tt in st)
                anti = any(tt and a[0] == "." and a[2] == "antihermitian" for a, tt in st)
                if zero or herm:
                    rep.ok("clear-needs-hermitian", f.short, f.loc(i))
                elif anti:
                    neg = [j for j in f.all_nodes() if negates_factor(f, F.cn, j, obj)]
                    blk = f.cfg.where[i][0]
                    rep.add(any(f.cfg.where.get(j, (None,))[0] == blk or (reaches(f, j, i) or reaches(f, i, j)) and (F.at(j) or frozenset()) & {l for l in st if l[0][0] == "." and l[0][2] == "antihermitian"} for j in neg),
                            "clear-needs-hermitian", f.short, f.loc(i), "%s drops the conjugation of an anti-Hermitian moment without changing its sign" % f.short)
                    for j in neg:
                        sj = F.at(j)
                        if sj is not None and fact_of(sj, obj) is not True and not (fact_of(st, obj) is True and reaches(f, i, j)):
                            rep.bad("clear-needs-hermitian", f.short + ": sign", f.loc(j), "%s changes the sign of an anti-Hermitian moment that may not be conjugated" % f.short)
                else:
                    rep.bad("clear-needs-hermitian", f.short, f.loc(i), "%s clears the conjugation flag of a moment that is not known to be Hermitian" % f.short)


def writes_conj(f, cn, j, obj):
    n = f.N[j]
    if n["k"] == "Assign" or n.get("op") == "=":
        tgt = n["c"][0] if n["k"] == "Assign" else n.get("o", -1)
        src = n["c"][1] if n["k"] == "Assign" else n["a"][0]
        if tgt is None or tgt < 0:
            return False
        if core.raw_path(f, tgt, cn) != (".", obj, "factor"):
            return False
        return any(is_conj(s) and s[3] == (".", obj, "factor") for s in core.subterms(cn(src)))
    return False


def negates_factor(f, cn, j, obj):
    n = f.N[j]
    if n["k"] not in ("Assign", "Call"):
        return False
    op = n.get("op")
    tgt = n["c"][0] if n["k"] == "Assign" else n.get("o", -1)
    if tgt is None or tgt < 0 or op not in ("*=", "="):
        return False
    if core.raw_path(f, tgt, cn) != (".", obj, "factor"):
        return False
    src = n["c"][1] if n["k"] == "Assign" else n["a"][0]
    t = cn(src)
    if op == "*=":
        return t == ("int", -1) or (t[0] == "neg") or (t[0] == "flt" and str(t[1]).startswith("-")) or any(s == ("int", -1) or s[0] == "neg" for s in core.subterms(t))
    return t[0] == "neg" or any(s[0] == "neg" for s in core.subterms(t))


def reaches_around(f, j, i):
    """can i be reached from the start of its innermost enclosing region without passing j?  (same object: same loop iteration)"""
    wj, wi = f.cfg.where[j], f.cfg.where[i]
    if wj[0] == wi[0] and wj[1] < wi[1]:
        return False
    # search backwards from i, stopping at j's block and at the declaration of the loop element
    st, seen = [p for p in f.cfg.pred[wi[0]]], set()
    while st:
        x = st.pop()
        if x in seen or x == wj[0]:
            continue
        seen.add(x)
        b = f.cfg.b[x]
        if x == f.cfg.entry:
            return True
        if any(f.N[e]["k"] == "Decl" for e in b["e"]):
            return True
        st.extend(f.cfg.pred[x])
    return False


def always_after(f, i, j):
    wi, wj = f.cfg.where[i], f.cfg.where.get(j)
    if wj is None:
        return False
    if wi[0] == wj[0]:
        return wj[1] > wi[1]
    return not any(escapes(f, s, {wj[0]}, set()) for s in f.cfg.succ[wi[0]])


def value_under(t, flag, v):
    """numeric value of a canonical term with the flag set to v, or None"""
    k = t[0]
    if k == "int":
        return float(t[1])
    if k == "flt":
        try:
            return float(t[1])
        except ValueError:
            return None
    if t == flag:
        return float(v)
    if k == "neg":
        x = value_under(t[1], flag, v)
        return None if x is None else -x
    if k == "!":
        x = value_under(t[1], flag, v)
        return None if x is None else float(not x)
    if k == "?:":
        c = value_under(t[1], flag, v)
        return None if c is None else value_under(t[2 if c else 3], flag, v)
    if k == "op" and len(t) == 4:
        a, b = value_under(t[2], flag, v), value_under(t[3], flag, v)
        if a is None or b is None:
            return None
        try:
            return {"*": a * b, "+": a + b, "-": a - b}.get(t[1])
        except Exception:
            return None
    return None


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def complex_parts(t):
    if t[0] == "new" and "complex" in str(t[1]) and len(t) == 4:
        return t[2], t[3]
    if t[0] == "list" and "complex" in str(t[1]) and len(t) == 4:
        return t[2], t[3]
    return None


def weights(prog, rep):
    """i-weights of imaginary parts: +i for a moment, -i for its conjugate; mirrored (conjugated factor) the other way round"""
    for f in prog.live():
        if not f.cfg or base(f) in BOTH or "/matrix/" not in f.rel and "/symbolic/" not in f.rel:
            continue
        if not any(f.N[i]["k"] == "Mem" and f.N[i]["n"] == "conjugated" for i in f.all_nodes()):
            continue
        cn = core.Canon(f)
        F = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or n.get("fn") != "std::operator*":
                continue
            fs = factors(cn(i))
            src = [strip_conj(m) for m in fs]
            src = [(m, k) for m, k in src if m[0] == "." and m[2] == "factor"]
            cs = [complex_parts(m) for m in fs if complex_parts(m)]
            if len(src) != 1 or len(cs) != 1:
                continue
            (m, k), (re_, im_) = src[0], cs[0]
            flag = (".", m[1], "conjugated")
            F = F or core.Facts(f)
            st = F.at(i)
            if st is None:
                continue
            if value_under(re_, flag, 0) != 0.0:
                continue
            pol = fact_of(st, m[1])
            for v in (0, 1):
                if pol is not None and bool(v) != pol:
                    continue
                got = value_under(im_, flag, v)
                if got is None:
                    rep.note("%s: weight not constant under the flag" % f.loc(i))
                    continue
                want = (-1.0 if v else 1.0) * (-1.0 if k else 1.0)
                rep.add(got == want, "imaginary-weight", "%s: %s%s" % (f.short, "conjugated" if v else "plain", ", mirrored" if k else ""), f.loc(i),
                        "%s: the imaginary part of a %s moment enters with weight %+gi, must be %+gi" % (f.short, ("conjugated" if v else "plain") + (" mirrored" if k else ""), got, want))


def linform(t):
    """{(atom, conjugated): coefficient} of a formal combination of scale factors; None if it is not one"""
    k = t[0]
    if k == "int":
        return {None: complex(t[1])}
    if k == "flt":
        try:
            return {None: complex(float(t[1]))}
        except ValueError:
            return None
    if complex_parts(t):
        a, b = (linform(x) for x in complex_parts(t))
        if a is None or b is None or set(a) | set(b) != {None}:
            return None
        return {None: a[None] + 1j * b[None]}
    if k == "new" and "complex" in str(t[1]) and len(t) == 3:
        return linform(t[2])
    if k == "neg":
        a = linform(t[1])
        return a and {x: -v for x, v in a.items()}
    if is_conj(t):
        a = linform(t[3])
        return a and {(None if x is None else (x[0], 1 - x[1])): v.conjugate() for x, v in a.items()}
    if k == "op" and t[1] in "+-" and len(t) == 4:
        a, b = linform(t[2]), linform(t[3])
        if a is None or b is None:
            return None
        r = dict(a)
        for x, v in b.items():
            r[x] = r.get(x, 0) + (v if t[1] == "+" else -v)
        return r
    if k == "op" and t[1] in "*/" and len(t) == 4:
        a, b = linform(t[2]), linform(t[3])
        if a is None or b is None:
            return None
        if set(b) == {None}:
            z = b[None]
            if t[1] == "/":
                if z == 0:
                    return None
                z = 1 / z
            return {x: v * z for x, v in a.items()}
        if set(a) == {None} and t[1] == "*":
            return {x: v * a[None] for x, v in b.items()}
        return None
    if k in ("v", ".", "call", "*"):
        return {(t, 0): 1 + 0j}
    return None


def parts_of(prog, rep):
    """real and imaginary part of a X + b X*: coefficients of X and X* as formal combinations of a, a*, b, b*"""
    for nm, ca, cb in (("Real", 0.5 + 0j, 0.5 + 0j), ("Imaginary", -0.5j, 0.5j)):
        for f in prog.find("Moment::Polynomial::" + nm, need=False):
            if not f.cfg:
                continue
            F = core.Facts(f)
            cn = F.cn
            role = {}
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("fn", "").endswith("emplace_back") and len(n["a"]) == 3:
                    fl = cn(n["a"][2])
                    r = core.lval_root(f, n["a"][1])[0]
                    if fl[0] == "int" and r is not None:
                        role[r] = fl[1]
            own = None
            pend = {}
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Assign" and n["op"] == "=":
                    tgt, src = n["c"]
                elif n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0 and len(n["a"]) == 1:
                    tgt, src = n["o"], n["a"][0]
                else:
                    continue
                v = core.lval_root(f, tgt)[0]
                if v not in role:
                    continue
                lf = linform(cn(src))
                st = F.at(i)
                if lf is None or st is None or None in lf:
                    rep.note("%s: coefficient not a formal combination" % f.loc(i))
                    continue
                flag = [t for a, t in st if is_mono_flag(a)]
                lf = {x: v2 for x, v2 in lf.items() if abs(v2) > 1e-12}
                pend.setdefault(f.cfg.where[i][0], []).append((role[v], lf, flag, i))
            for blk, l in pend.items():
                d = {r: (lf, flag, i) for r, lf, flag, i in l}
                if set(d) != {0, 1}:
                    continue
                (p, flag, i), (q, _, j) = d[0], d[1]
                cq = {(x, 1 - c): v.conjugate() for (x, c), v in q.items()}
                same = set(p) == set(cq) and all(abs(p[x] - cq[x]) < 1e-12 for x in p)
                rep.add(same, "real-part-formula", "Polynomial::%s: coefficients are conjugate to each other" % nm, f.loc(j),
                        "Polynomial::%s gives X and X* coefficients that are not complex conjugates" % nm)
                vals = sorted(((c, v) for (x, c), v in p.items()), key=lambda z: z[0])
                if len(vals) == 1 and flag:
                    want = (1, cb) if flag[0] else (0, ca)
                    okv = vals[0][0] == want[0] and abs(vals[0][1] - want[1]) < 1e-12
                elif len(vals) == 2:
                    okv = vals[0][0] == 0 and vals[1][0] == 1 and abs(vals[0][1] - ca) < 1e-12 and abs(vals[1][1] - cb) < 1e-12
                else:
                    continue
                rep.add(okv, "real-part-formula", "Polynomial::%s: %s" % (nm, "X and X*" if len(vals) == 2 else "X*" if flag[0] else "X"), f.loc(i),
                        "Polynomial::%s computes a wrong coefficient for the %s case" % (nm, "two-term" if len(vals) == 2 else "conjugated" if flag[0] else "plain"))


def table(prog, rep):
    """hash table of symbols: conjugate words are stored with negative index, and read back as conjugated"""
    for f in prog.find("Moment::SymbolTable::hash_to_index", need=False):
        F = core.Facts(f)
        for i in f.all_nodes():
            n = f.N[i]
            a = n.get("a") if n["k"] == "Ctor" and n.get("cls") == "std::pair" else None
            if not a or len(a) != 2:
                continue
            x, fl = F.cn(a[0]), F.cn(a[1])
            st = F.at(i)
            if st is None or fl[0] not in ("int", "!", "lt"):
                continue
            neg = x[0] == "neg"
            stored = any(s[0] == "." and s[2] == "second" for s in core.subterms(x))
            if not stored:
                continue
            if fl[0] == "int":
                rep.add(bool(fl[1]) == neg, "stored-polarity", "hash_to_index %s" % ("negative" if neg else "positive"), f.loc(i), "a %s table entry is read back as %sconjugated" % ("negative" if neg else "positive", "" if fl[1] else "not "))
                sgn = [t for a_, t in st if a_[0] == "lt" and a_[2] == ("int", 0)]
                if sgn:
                    rep.add(sgn[0] == neg, "stored-polarity", "hash_to_index sign", f.loc(i), "a %s table entry is negated the wrong way" % ("negative" if sgn[0] else "positive"))
    for f in prog.live():
        if not f.name.startswith("Moment::SymbolTable::") or not f.cfg:
            continue
        cn = core.Canon(f)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint") and n.get("o", -1) >= 0:
                if not core.mentions(cn(n["o"]), (".", ("this",), "hash_table")):
                    continue
                t = tuple(cn(a) for a in n["a"])
                conj = any(s[0] == "." and s[2] == "conjSeq" for s in core.subterms(t)) or any(s[0] == "call" and str(s[1]).endswith("hash_conj") for s in core.subterms(t))
                neg = any(s[0] == "neg" for s in core.subterms(t))
                rep.add(conj == neg, "stored-polarity", f.short + (" conjugate" if conj else " plain"), f.loc(i), "%s stores %s under the hash of the %s word" % (f.short, "a negative index" if neg else "a positive index", "conjugate" if conj else "plain"))
                if conj:
                    F = core.Facts(f)
                    st = F.at(i)
                    h = any(not tt and "hermitian" in repr(a) and "antihermitian" not in repr(a) for a, tt in st or ())
                    rep.add(h, "stored-polarity", f.short + " conjugate guard", f.loc(i), "%s stores a separate conjugate entry for a symbol that may be Hermitian" % f.short)
    # symbol numbers stored with the conjugation as their sign
    for f in prog.live():
        if not f.cfg or not any(f.N[i]["k"] == "Mem" and f.N[i]["n"] == "is_conjugated" for i in f.all_nodes()):
            continue
        F = core.Facts(f)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or n.get("fn", "").rsplit("::", 1)[-1] not in ("emplace_back", "push_back") or len(n["a"]) != 1:
                continue
            t = F.cn(n["a"][0])
            ids = [x for x in core.subterms(t) if idterm(x) is not None]
            fl = [x for x in core.subterms(t) if flagterm(x) is not None]
            if len(set(ids)) != 1:
                continue
            occ = idterm(ids[0])
            if not any(s_[0] == "call" and "where" in str(s_[1]) for s_ in core.subterms(occ)) and not fl:
                continue
            for v in (0, 1):
                x = value_under(subst(t, ids[0], ("int", 7)), fl[0] if fl else None, v)
                pol = fact_of(F.at(i), occ)
                if x is None or pol is not None and pol != bool(v):
                    continue
                rep.add((x < 0) == bool(v), "stored-polarity", f.short + (": conjugated" if v else ": plain"), f.loc(i), "%s stores the number of a %s word with the wrong sign" % (f.short, "conjugated" if v else "plain"))
    # Symbol's own pair of accessors
    for nm, first in (("Moment::Symbol::sequence_conj", False),):
        for f in prog.find(nm, need=False):
            F = core.Facts(f)
            for i in f.all_nodes():
                t = F.cn(i) if f.N[i]["k"] in ("Mem", "Call") else None
                if t in ((".", ("this",), "opSeq"), (".", ("this",), "conjSeq")):
                    st = F.at(i)
                    if st is None:
                        continue
                    h = [tt for a, tt in st if a == (".", ("this",), "hermitian")]
                    if h:
                        rep.add(h[0] == (t[2] == "opSeq"), "stored-polarity", "sequence_conj", f.loc(i), "the conjugate word of a %sHermitian symbol is its %s" % ("" if h[0] else "non-", t[2]))


def check(prog, rep, tier):
    callers = rev(prog)
    words(prog, rep, callers)
    constructions(prog, rep)
    branches(prog, rep)
    flips(prog, rep)
    weights(prog, rep)
    factor_writes(prog, rep)
    printing(prog, rep)
    map_tables(prog, rep)
    table(prog, rep)
    parts_of(prog, rep)
    rep.floor("word-polarity", 8)
    rep.floor("moment-construction", 10)
    rep.floor("imaginary-weight", 6)
