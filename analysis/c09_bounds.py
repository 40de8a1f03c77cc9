"""C09: caller-supplied indices are range checked, exactly, before use."""
import json, os, sys
import ir, core, pp

RULE = ("must-facts dataflow over the control-flow graph (with validating callees summarised): at every use of a caller-supplied index in a "
        "look-up that promises to reject bad ones, 'index < bound' holds on every path, with the exact bound; no look-up anywhere admits "
        "an index equal to the size of the container it then indexes")
LEVEL = "proof"
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables", "c09.json")

# functions whose one-past-the-end check is right (they validate the end of a half-open range)
END_CHECKS = {"Moment::Tensor::validate_index_end", "Moment::Tensor::validate_range_index"}


def norm(t, pidx):
    """position-independent rendering of a canonical term: parameters by position, locals anonymous"""
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "v":
        return "$%d" % pidx[t[1]] if t[1] in pidx else "local"
    if k == "elem":
        return "each(%s)" % norm(t[1], pidx)
    if k == "this":
        return "this"
    if k == ".":
        return norm(t[1], pidx) + "." + str(t[2])
    if k == "idx" and t[2][0] == "v" and t[2][1] not in pidx:
        return "each(%s)" % norm(t[1], pidx)     # a loop over positions reads the same as a loop over elements
    if k == "idx":
        return "%s[%s]" % (norm(t[1], pidx), norm(t[2], pidx))
    if k == "size":
        return "size(%s)" % norm(t[1], pidx)
    if k == "int":
        return str(t[1])
    if k == "call":
        return "%s(%s)" % (str(t[1]).split("::")[-1], ",".join(norm(x, pidx) for x in t[2:] if x is not None and not (isinstance(x, tuple) and x and x[0] == "@")))
    return "%s(%s)" % (k, ",".join(norm(x, pidx) for x in t[1:]))


def throws_only(f, b, memo):
    """every path from block b throws, within a small region"""
    if b in memo:
        return memo[b]
    seen, st = set(), [b]
    res = True
    found = False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 60:
            res = False
            break
        if any(f.N[e]["k"] == "Throw" for e in f.cfg.b[x]["e"]):
            found = True
            continue
        if x == f.cfg.exit:
            # noreturn helper calls end in exit through a no-return block
            res = False
            break
        if f.cfg.b[x].get("nr"):
            found = True
            continue
        ss = f.cfg.succ[x]
        if not ss:
            res = False
            break
        st.extend(ss)
    memo[b] = res and found
    return memo[b]


def uppers(st, idx):
    out = []
    for a, t in st:
        if a[0] == "lt":
            if t and a[1] == idx:
                out.append(("lt", a[2], a[3]))
            if not t and a[2] == idx:
                out.append(("le", a[1], a[3]))
        if a[0] == "eq" and not t and idx in (a[1], a[2]):
            out.append(("ne", a[2] if a[1] == idx else a[1], False))
    return out


def nonneg(st, idx):
    for a, t in st:
        if a[0] == "lt" and not t and a[1] == idx and a[2] == ("int", 0):
            return True
        if a[0] == "lt" and t and a[2] == idx and a[1][0] == "int" and a[1][1] >= -1:
            return True
        if a[0] == "lt" and not t and a[1] == idx and a[2][0] == "int" and a[2][1] >= 0:
            return True
    return False


def index_sites(f):
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("fn", "").endswith("::operator[]") and len(n.get("a", [])) == 1:
            ix = n["a"][0]
            ob = n.get("o", -1)
        elif n["k"] == "Sub":
            ob, ix = n["c"]
        else:
            continue
        if core.is_int_type(f.ty(ix)) or (f.N[ix]["k"] in ("Cast", "Call") and core.is_int_type(f.ty(ix))):
            yield i, ob, ix


def in_condition(f, e):
    """the element is an operand of a comparison (a check, not a use)"""
    par = f.parents()
    x = e
    for _ in range(6):
        p = par.get(x)
        if p is None:
            return False
        n = f.N[p]
        if (n["k"] == "Bin" and n["op"] in core.CMP) or (n["k"] == "Call" and n.get("op") in core.CMP):
            return True
        if n["k"] in ("Cast", "Un", "Mem") or (n["k"] == "Bin" and n["op"] in ("+", "-")):
            x = p
            continue
        return False
    return False


def is_assert_init(f, e):
    """initialiser of a single-use alias (const auto x = P;): the alias' uses are judged instead"""
    p = f.parents().get(e)
    return p is not None and f.N[p]["k"] == "Decl"


class FnView:
    def __init__(self, f):
        self.f = f
        self.F = core.DeepFacts(f)
        self.pidx = {q["v"]: i for i, q in enumerate(f.params)}
        self.vi = core.varinfo(f)
        self.tmemo = {}

    def paramish(self, t):
        return any(isinstance(x, tuple) and x[0] == "v" and len(x) == 2 and x[1] in self.pidx for x in core.subterms(t))

    def block_of(self, e):
        w = self.f.cfg.where.get(e)
        return w[0] if w else None

    def guards(self):
        """(P, bound) pairs established by a rejecting (throwing) check in this function"""
        f = self.f
        out = {}
        for b in f.cfg.reach:
            c = core.edge_cond(f, b)
            if c is None:
                continue
            ss = f.cfg.b[b]["s"]
            for k in (0, 1):
                o, me = ss[1 - k], ss[k]
                if o is None or me is None:
                    continue
                if throws_only(f, o, self.tmemo) and not throws_only(f, me, self.tmemo):
                    lits = set()
                    core.literals(self.F.cn(c), k == 0, lits)
                    for a, t in lits:
                        if a[0] != "lt":
                            continue
                        x, bd = (a[1], a[2]) if t else (a[2], a[1])
                        if bd[0] == "int" or x[0] == "int":
                            continue
                        if x[0] != "size" and bd[0] in ("size", ".", "call", "op", "idx", "v"):
                            out.setdefault(x, set()).add((bd, "lt" if t else "le", c))
        return out

    def uses(self, P):
        f = self.f
        for b in f.cfg.reach:
            if b not in self.F.IN or throws_only(f, b, self.tmemo):
                continue
            for e in f.cfg.b[b]["e"]:
                n = f.N[e]
                if n["k"] in ("Ref", "Mem", "Call", "Sub") and self.F.cn(e) == P:
                    if in_condition(f, e) or is_assert_init(f, e):
                        continue
                    # only the outermost node of the same value
                    p = f.parents().get(e)
                    if p is not None and self.F.cn(p) == P and f.N[p]["k"] in ("Mem", "Call", "Sub", "Cast"):
                        continue
                    if core.is_int_type(f.ty(e)):
                        yield e


def strict(view, st, P, bounds_ok, rel="lt"):
    """P < one of the accepted bounds, and not negative"""
    ups = uppers(st, P)
    if rel == "le":
        # an inclusive limit: exactly '<=' must be what is established
        if any(k == "le" and bounds_ok(b) for k, b, u in ups) and not any(k in ("lt", "ne") and bounds_ok(b) for k, b, u in ups):
            return True, ""
        if any(k in ("lt", "ne") and bounds_ok(b) for k, b, u in ups):
            return False, "a value equal to the limit is rejected"
        return False, "not checked against the limit"
    for kind, bd, uns in ups:
        if kind == "lt" and bounds_ok(bd):
            if uns or nonneg(st, P):
                return True, ""
    # le and != together
    for kind, bd, uns in ups:
        if kind == "le" and bounds_ok(bd) and any(k2 == "ne" and b2 == bd for k2, b2, _ in ups):
            return True, ""
    if any(k == "lt" for k, _, _ in ups):
        return False, "checked against %s" % ", ".join(sorted(norm(b, view.pidx) for k, b, _ in ups if k == "lt"))
    if any(k == "le" for k, _, _ in ups):
        return False, "an index equal to the bound is admitted"
    return False, "no range check holds on this path"


def handed_to_check(view, e, P, ok_b):
    """the value is handed to a function that itself checks it: it returns normally only if the check holds"""
    f, par = view.f, view.f.parents()
    x = par.get(e)
    while x is not None and f.N[x]["k"] == "Cast":
        x = par.get(x)
    if x is None or f.N[x]["k"] != "Call":
        return False
    st = view.F.callee_facts(view.F, f.N[x], x)
    return bool(st) and strict(view, st, P, ok_b)[0]


def candidate_functions(prog):
    for f in prog.live():
        if "lib_moment" in f.rel and f.cfg:
            yield f


def local_size(view, bd, cont):
    """bound is the size of the container: size(c), or the dimension a local container was created with"""
    if bd == ("size", cont):
        return True
    if cont[0] == "v":
        g = view.vi.get(cont[1])
        if g is not None and g.init is not None:
            c = view.F.cn(g.init)
            if c[0] in ("new", "list") and len(c) > 2 and c[2] == bd:
                return True
            if bd[0] == "size" and c[0] in ("new", "list") and len(c) > 2 and c[2] == bd:
                return True
    return False


def rows_of(view):
    """derive the obligation rows of one function from the current tree (used to freeze the table)"""
    f = view.f
    rows = []
    gs = view.guards()
    for P, bs in gs.items():
        if P[0] in ("?:",) or norm(P, view.pidx) == "local" or "flt" in norm(P, view.pidx) or ".the_hash" in norm(P, view.pidx):
            continue
        bn = sorted({norm(b, view.pidx) for b, k, c in bs if k == "le"})
        ok_b = lambda bd: norm(bd, view.pidx) in bn
        ex = view.F.IN.get(f.cfg.exit)
        if bn and ex is not None and strict(view, ex, P, ok_b, "le")[0]:
            rows.append(dict(kind="exit", rel="le", fn=f.name, key=f.key, p=norm(P, view.pidx), bounds=bn))
        if bn and latch_ok(view, P, ok_b, "le") is True:
            rows.append(dict(kind="latch", rel="le", fn=f.name, key=f.key, p=norm(P, view.pidx), bounds=bn))
        bn = sorted({norm(b, view.pidx) for b, k, c in bs if k == "lt"})
        if not bn:
            continue
        ok_b = lambda bd: norm(bd, view.pidx) in bn
        us = list(view.uses(P))
        if us and all(strict(view, view.F.at(e) or frozenset(), P, ok_b)[0] for e in us):
            rows.append(dict(kind="use", fn=f.name, p=norm(P, view.pidx), bounds=bn))
        ex = view.F.IN.get(f.cfg.exit)
        if ex is not None and strict(view, ex, P, ok_b)[0]:
            rows.append(dict(kind="exit", fn=f.name, key=f.key, p=norm(P, view.pidx), bounds=bn))
        if latch_ok(view, P, ok_b) is True:
            rows.append(dict(kind="latch", fn=f.name, key=f.key, p=norm(P, view.pidx), bounds=bn))
    site_ok = {}
    for i, ob, ix in index_sites(f):
        st = view.F.at(i)
        if st is None:
            continue
        k = (norm(view.F.cn(ix), view.pidx), norm(view.F.cn(ob), view.pidx))
        site_ok[k] = site_ok.get(k, True) and strict(view, st, view.F.cn(ix), lambda bd: True)[0]
    for i, ob, ix in index_sites(f):
        P = view.F.cn(ix)
        if not view.paramish(P) or not site_ok.get((norm(P, view.pidx), norm(view.F.cn(ob), view.pidx)), False):
            continue
        vs = [t[1] for t in core.subterms(P) if isinstance(t, tuple) and t[0] == "v" and len(t) == 2]
        if P[0] == "v" and P[1] in view.vi and view.vi[P[1]].muts:
            continue
        st = view.F.at(i)
        if st is None:
            continue
        C = view.F.cn(ob)
        ups = [b for k, b, u in uppers(st, P) if k == "lt"]
        if ups and strict(view, st, P, lambda bd: True)[0]:
            rows.append(dict(kind="site", fn=f.name, p=norm(P, view.pidx), c=norm(C, view.pidx),
                             bounds=sorted({norm(b, view.pidx) for b in ups})))
    return rows


def latch_ok(view, P, ok_b, rel="lt"):
    """P varies with a loop: at the end of every completed iteration the check holds. None if not applicable"""
    f = view.f
    res = None
    pvars = {t[1] for t in core.subterms(P) if isinstance(t, tuple) and t[0] == "v" and len(t) == 2}
    pelem = {t[2] for t in core.subterms(P) if isinstance(t, tuple) and t[0] == "elem" and len(t) == 3}
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "RangeFor":
            if n.get("var") not in pelem:
                continue
            inc = n["c"][4] if len(n["c"]) > 4 else -1
        elif n["k"] == "For":
            inc = n.get("inc", -1)
            if inc < 0 or not any(core.lval_root(f, y)[0] in pvars for y in f.walk(inc) if f.N[y]["k"] in ("Ref",)):
                continue
        else:
            continue
        st = view.F.at(inc)
        if st is None:
            continue
        r = strict(view, st, P, ok_b, rel)[0]
        res = r if res is None else (res and r)
    return res


VALIDATORS = {"Moment::Tensor::validate_index", "Moment::Tensor::validate_offset", "Moment::Tensor::validate_index_inclusive",
              "Moment::Tensor::validate_range"}


def validated(prog, f, depth=0):
    """{(validator, argument terms)} whose call is on every path to a normal return of f, callees included"""
    memo = prog.__dict__.setdefault("_validated", {})
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = frozenset()
    if not f.cfg or depth > 4:
        return frozenset()
    cn = core.Canon(f)
    pidx = {q["v"]: i for i, q in enumerate(f.params)}

    def ev(e):
        n = f.N[e]
        out = set()
        if n["k"] not in ("Call", "Ctor"):
            return out
        if n.get("fn") in VALIDATORS:
            out.add((n["fn"].rsplit("::", 1)[-1], tuple(norm(cn(a), pidx) for a in n["a"])))
        ts = prog.targets(n)
        if len(ts) == 1 and ts[0] != f.key:
            g = prog.F[ts[0]]
            for v, args in validated(prog, g, depth + 1):
                sub = []
                for a in args:
                    if a.startswith("$") and a[1:].isdigit() and int(a[1:]) < len(n.get("a", [])):
                        a = norm(cn(n["a"][int(a[1:])]), pidx)
                    sub.append(a)
                out.add((v, tuple(sub)))
        return out

    def tr(b, st):
        for e in f.cfg.b[b]["e"]:
            x = ev(e)
            if x:
                st = st | x
        return st
    if not any(f.N[e]["k"] in ("Call", "Ctor") and (f.N[e].get("fn") in VALIDATORS or prog.targets(f.N[e])) for e in f.all_nodes()):
        return frozenset()
    IN = ir.forward(f.cfg, frozenset(), tr, lambda a, b: a & b)
    memo[f.key] = IN.get(f.cfg.exit) or frozenset()
    return memo[f.key]


def sig(f):
    """parameter types without template arguments: tells overloads apart"""
    out = []
    for p in f.params:
        t = f.T[p["t"]]
        d, o = 0, ""
        for ch in t:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                o += ch
        out.append(o)
    return out


def freeze(prog):
    rows = []
    SKIP = {"Moment::RawPolynomial::(ctor)", "Moment::CombinationIndexIteratorBase::incIndexExclusive", "Moment::(anon)::zip_basis",
            "Moment::Inflation::(anon)::make_extended_matrix_single_thread", "Moment::Inflation::CausalNetwork::reverse_observable_to_source"}
    for f in candidate_functions(prog):
        if f.name in SKIP or "(anon)" in f.name:
            continue        # internal iteration, not a look-up that promises to reject a caller's index
        if "/tensor/" in f.rel or "/probability/" in f.rel:
            for v, args in sorted(validated(prog, f)):
                if all(a.startswith("$") for a in args):
                    rows.append(dict(kind="calls", fn=f.name, nparam=len(f.params), sig=sig(f), p=v + "(" + ",".join(args) + ")", bounds=[]))
    for f in candidate_functions(prog):
        v = FnView(f)
        rows += rows_of(v)
        for r in rows:
            if "sig" not in r:
                r["sig"] = sig(f)
    seen, out = set(), []
    for r in rows:
        # template instantiations share a row; mangled keys only matter for exit/latch rows
        k = json.dumps({x: y for x, y in r.items() if x != "bounds"}, sort_keys=True)
        if k in seen:
            o = next(q for q in out if json.dumps({x: y for x, y in q.items() if x != "bounds"}, sort_keys=True) == k)
            o["bounds"] = sorted(set(o["bounds"]) | set(r["bounds"]))
            continue
        seen.add(k)
        out.append(r)
    return out


def check(prog, rep, tier):
    tab = json.load(open(TABLE))
    byfn = {}
    for r in tab:
        byfn.setdefault(r["fn"], []).append(r)
    hit = set()
    views = {}
    for f in candidate_functions(prog):
        rows = byfn.get(f.name, [])
        sites = list(index_sites(f))
        if not rows and not sites:
            continue
        v = FnView(f)
        for ri, r in enumerate(rows):
            if r["sig"] != sig(f):
                continue
            ok_b = lambda bd, r=r: norm(bd, v.pidx) in r["bounds"]
            rid = (f.name, ri)
            if r["kind"] == "calls":
                if len(f.params) != r["nparam"] or not f.cfg:
                    continue
                hit.add(rid)
                have = {v2 + "(" + ",".join(a2) + ")" for v2, a2 in validated(prog, f)}
                rep.add(r["p"] in have, "validated-on-every-path", "%s: %s" % (f.short, r["p"]), f.loc(),
                        "%s can return normally without the index check %s" % (f.short, r["p"]))
                continue
            if r["kind"] == "use":
                gs = terms_matching(v, r["p"])
                for P in gs:
                    for e in v.uses(P):
                        st = v.F.at(e)
                        if st is None:
                            continue
                        good, why = strict(v, st, P, ok_b)
                        hit.add(rid)
                        if not good and handed_to_check(v, e, P, ok_b):
                            continue
                        rep.add(good, "checked-before-use", "%s: %s" % (f.short, r["p"]), f.loc(e),
                                "index %s used in %s: %s" % (r["p"], f.short, why))
            elif r["kind"] in ("exit", "latch"):
                if r["key"] != f.key:
                    continue
                gs = terms_matching(v, r["p"])
                okk = False
                why = "no check of this index is left in the function"
                for P in gs:
                    if r["kind"] == "exit":
                        ex = v.F.IN.get(f.cfg.exit)
                        g, why = strict(v, ex, P, ok_b, r.get("rel", "lt")) if ex is not None else (True, "")
                    else:
                        x = latch_ok(v, P, ok_b, r.get("rel", "lt"))
                        g = x is True
                        why = "an iteration can complete without the check"
                    okk = okk or g
                hit.add(rid)
                if not okk and not gs:
                    # the index is no longer computed in the same form: judge only whether any rejecting check of these parameters is left
                    ps = {c2 for c2 in __import__("re").findall(r"\$(\d+)", r["p"])}
                    left = [P for P in v.guards() if ps & set(__import__("re").findall(r"\$(\d+)", norm(P, v.pidx)))]
                    if left:
                        rep.note("check of %s in %s is written in a form the rule does not compare" % (r["p"], f.short))
                        continue
                rep.add(okk, "checked-on-return" if r["kind"] == "exit" else "checked-each-iteration", "%s: %s" % (f.short, r["p"]), f.loc(),
                        "%s can return normally although %s was not checked against %s (%s)" % (f.short, r["p"], "/".join(r["bounds"]), why))
        for i, ob, ix in sites:
            P = v.F.cn(ix)
            st = v.F.at(i)
            if st is None:
                continue
            C = v.F.cn(ob)
            pn, cnm = norm(P, v.pidx), norm(C, v.pidx)
            for ri, r in enumerate(rows):
                if r["sig"] == sig(f) and r["kind"] == "site" and r["p"] == pn and r["c"] == cnm:
                    hit.add((f.name, ri))
                    good, why = strict(v, st, P, lambda bd: norm(bd, v.pidx) in r["bounds"] or local_size(v, bd, C))
                    rep.add(good, "guarded-subscript", "%s: %s[%s]" % (f.short, cnm, pn), f.loc(i), "%s in %s: %s" % (pp.ex(f, i), f.short, why))
            # generic rule: admitted up to and including the size of the very container
            if P[0] in ("op", "int"):
                continue
            ups = uppers(st, P)
            loose = [b for k, b, u in ups if k == "le" and (local_size(v, b, C))]
            if loose and not any(k == "lt" for k, b, u in ups) and not any(k == "ne" for k, b, u in ups):
                rep.bad("no-off-by-one", "%s: %s[%s]" % (f.short, cnm, pn), f.loc(i),
                        "%s: only '<=' the size of the container is known here" % pp.ex(f, i))
            elif any(k == "lt" and local_size(v, b, C) for k, b, u in ups):
                rep.ok("no-off-by-one", "%s: %s[%s]" % (f.short, cnm, pn), f.loc(i))
    miss = [r for fn, rs in byfn.items() for ri, r in enumerate(rs) if (fn, ri) not in hit]
    for r in miss:
        rep.note("row without instance in this tree: %s %s %s" % (r["kind"], r["fn"], r["p"]))
    if len(miss) * 5 > len(tab):
        raise ir.AnalysisBroken("C09: %d of %d confirmed look-ups vanished" % (len(miss), len(tab)))
    rep.floor("guarded-subscript", 40)
    rep.floor("checked-before-use", 30)
    rep.floor("no-off-by-one", 60)
    rep.extra["table_rows"] = len(tab)
    rep.assume.append("sizes named in the table are the sizes of the arrays they guard (confirmed by reading: e.g. DimensionCount for Dimensions)")


def terms_matching(v, pn):
    """canonical terms in this function whose normal form is pn"""
    out = []
    for b in v.f.cfg.reach:
        for e in v.f.cfg.b[b]["e"]:
            if v.f.N[e]["k"] in ("Ref", "Mem", "Call", "Sub", "Bin"):
                t = v.F.cn(e)
                if t not in out and norm(t, v.pidx) == pn:
                    out.append(t)
    return out


if __name__ == "__main__":
    prog = ir.load()
    rows = freeze(prog)
    if "--write" in sys.argv:
        json.dump(rows, open(TABLE, "w"), indent=0, sort_keys=True)
    for r in rows:
        print(r["kind"], r["fn"].replace("Moment::", ""), r["p"], r.get("c", ""), r["bounds"])
    print(len(rows))
