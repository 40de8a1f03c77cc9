"""Data dependence inside one function: everything that can influence the value of an expression through local variables."""
import core

STMT = ("Block", "If", "For", "While", "Do", "RangeFor", "Switch", "Case", "Default", "Decl", "Return", "Try", "Catch", "Label")


def top(f, i):
    """outermost expression containing node i"""
    par = f.parents()
    while True:
        p = par.get(i)
        if p is None or f.N[p]["k"] in STMT:
            return i
        if f.N[p]["k"] == "Lambda":
            return i
        i = p


def loop_of_var(f, v):
    g = core.varinfo(f).get(v)
    return g.rangevar if g is not None else None


def enclosing_conds(f, i):
    """condition nodes controlling node i (syntactically)"""
    par = f.parents()
    out = []
    p = par.get(i)
    c = i
    while p is not None:
        n = f.N[p]
        if n["k"] in ("If", "While", "Do", "For", "Switch", "Cond"):
            q = n.get("cond", n["c"][0] if n["k"] == "Cond" and n.get("c") else -1)
            if q is not None and q >= 0 and q != c:
                out.append(q)
        c, p = p, par.get(p)
    return out


def closure(f, nid, cn=None, ctrl=False, lambdas=True, seen=None, at=None):
    """(function, canon, node) triples of every node that may influence the value of nid"""
    if seen is None:
        seen = set()
    if cn is None:
        cn = core.Canon(f)
    work = [nid]
    while work:
        r = work.pop()
        if r is None or r < 0 or (f.key, r) in seen:
            continue
        for x in f.walk(r):
            if (f.key, x) in seen:
                continue
            seen.add((f.key, x))
            yield f, cn, x
            n = f.N[x]
            if n["k"] == "Ref" and n.get("dk") in ("local", "bind", "parm", "slocal"):
                v = n["v"]
                vi = core.varinfo(f)
                if v in vi:
                    work.extend(influences(f, v, ctrl))
                elif f.get("lambda"):
                    p = f.prog.F.get(f.get("parent", ""))
                    if p is not None and v in core.varinfo(p):
                        for q in influences(p, v, ctrl):
                            yield from closure(p, q, None, ctrl, lambdas, seen)
            elif n["k"] == "Lambda" and lambdas:
                g = f.prog.F.get(n["f"])
                if g is not None and g.body >= 0:
                    yield from closure(g, g.body, None, ctrl, lambdas, seen)


def influences(f, v, ctrl=False):
    """nodes whose values flow into local variable v"""
    key = ("infl", v, ctrl)
    m = f._memo.get(key)
    if m is not None:
        return m
    g = core.varinfo(f).get(v)
    out = []
    if g is not None:
        if g.init is not None:
            out.append(g.init)
        if g.rangevar is not None:
            out.append(f.N[g.rangevar]["range"])
        if g.kind == "bind" and g.decl is not None:
            for vv in f.N[g.decl]["vars"]:
                if any(b["v"] == v for b in vv.get("binds", [])):
                    if "i" in vv:
                        out.append(vv["i"])
                    r = loop_of_var(f, vv["v"])
                    if r is not None:
                        out.append(f.N[r]["range"])
        for a in g.muts:
            if f.N[a]["k"] == "Lambda":
                continue
            if const_use(f, a):
                continue
            t = top(f, a)
            out.append(t)
            if ctrl:
                out.extend(enclosing_conds(f, a))
    f._memo[key] = out
    return out


def const_use(f, a):
    """a non-const accessor call whose result is only used as a constant iterator or pointer"""
    n = f.N[a]
    if n["k"] == "Ctor" and n.get("sp") in ("move", "copy") or n["k"] == "Call" and n.get("fn") in ("std::move", "std::forward"):
        return True          # moved from: nothing flows in
    if n["k"] != "Call":
        return False
    last = n.get("fn", "").rsplit("::", 1)[-1]
    if last in ("cbegin", "cend", "crbegin", "crend"):
        return True
    if last not in ("begin", "end", "rbegin", "rend", "data"):
        return False
    par = f.parents()
    p = par.get(a)
    while p is not None and f.N[p]["k"] in ("Cast", "Ctor") and len(f.kids(p)) == 1:
        t = f.ty(p)
        if t.startswith("const ") and t.rstrip().endswith("*") or "const_iterator" in t or "__normal_iterator<const" in t:
            return True
        p = par.get(p)
    return False
