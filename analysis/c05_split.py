"""C05: parallel workers split the work completely and without overlap."""
import re
import core, cp, path, pp
import c04_failure as c4

RULE = ("workers are numbered 0..n-1 and told n; every loop that divides work among them starts at the worker's number, advances by n, runs to the whole extent, and is neither left early nor re-aimed; in such a loop elements of shared arrays are addressed by the worker's own column "
        "(or by its transpose where rows are taken from the diagonal on or from outside the columns' range), so that no two workers write one element and all are written; nothing else of the shared state is written without lock or atomic; partial results are combined so that everybody's reach worker 0 once, when complete; results are handed over by release/acquire")
TECHNIQUE = "normal forms of loop bounds and index expressions in worker code, with path conditions; ordering rules for atomics"
LEVEL = "abstraction"


class Poly(dict):
    pass


def padd(a, b, s=1):
    out = Poly(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0:
            del out[k]
    return out


def pmul(a, b):
    out = Poly()
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            out[m] = out.get(m, 0) + v * w
            if out[m] == 0:
                del out[m]
    return out


class Norm:
    def __init__(self, f):
        self.f = f
        self.vi = core.varinfo(f)

    def strip(self, i):
        f = self.f
        while i is not None and i >= 0:
            n = f.N[i]
            if n["k"] in ("Cast", "ICast", "Paren", "Expr", "Clean", "Bind", "Mat") and len(n.get("c", [])) == 1:
                i = n["c"][0]
            else:
                return i
        return i

    def local(self, i):
        """initialiser of a local that keeps it, if node i is such"""
        n = self.f.N[i]
        if n["k"] == "Ref" and n.get("dk") == "local":
            x = self.vi.get(n["v"])
            if x is not None and x.init is not None and x.init >= 0 and (not x.muts or not x.defs and "*" in (x.t or "")) and x.kind in ("local", "var", None, "decl"):
                return x.init
        return None

    def poly(self, i, depth=0):
        i = self.strip(i)
        f = self.f
        n = f.N[i]
        k = n["k"]
        if k in ("Int", "Lit") or "val" in n and k not in ("Ref", "Mem", "Call"):
            try:
                v = int(n.get("val", n.get("v")))
                return Poly({(): v}) if v else Poly()
            except (TypeError, ValueError):
                pass
        if k == "Bin" and n.get("op") in ("+", "-", "*"):
            a, b = self.poly(n["c"][0], depth), self.poly(n["c"][1], depth)
            return pmul(a, b) if n["op"] == "*" else padd(a, b, 1 if n["op"] == "+" else -1)
        j = self.local(i)
        if j is not None and depth < 8:
            t = f.N[self.strip(j)]
            if t["k"] in ("Bin", "Int", "Lit", "Mem", "Ref", "Call"):
                return self.poly(j, depth + 1)
        return Poly({(self.atom(i),): 1})

    def atom(self, i):
        n = self.f.N[i]
        if n["k"] == "Ref" and n.get("v"):
            return n["v"]
        return pp.ex(self.f, i)

    def base(self, i, depth=0):
        """what array a pointer expression points into, and at which index"""
        i = self.strip(i)
        f = self.f
        n = f.N[i]
        if n["k"] == "Bin" and n.get("op") in ("+", "-"):
            l, r = n["c"][0], n["c"][1]
            lt = f.ty(l) or ""
            if core.is_ptr(lt) or "*" in lt:
                b, x = self.base(l, depth)
                return b, padd(x, self.poly(r), 1 if n["op"] == "+" else -1)
            rt = f.ty(r) or ""
            if core.is_ptr(rt) or "*" in rt:
                b, x = self.base(r, depth)
                return b, padd(x, self.poly(l))
        j = self.local(i)
        if j is not None and depth < 8:
            return self.base(j, depth + 1)
        return self.atom(i), Poly()

    def element(self, i):
        """(array, index) an lvalue expression names, or None"""
        i = self.strip(i)
        f = self.f
        n = f.N[i]
        if n["k"] == "Sub":
            b, x = self.base(n["c"][0])
            return b, padd(x, self.poly(n["c"][1]))
        if n["k"] == "Call" and n.get("op") == "[]" and n.get("o", -1) >= 0 and n.get("a"):
            return pp.ex(f, n["o"]), self.poly(n["a"][0])
        if n["k"] == "Un" and n.get("op") == "*":
            return self.base(n["c"][0])
        return None


def fields(f, i, name):
    return any(f.N[j]["k"] == "Mem" and f.N[j]["n"] == name for j in f.walk(i))


def is_read(f, i):
    return True


class Loop:
    """a for loop over a counter"""
    def __init__(self, f, nm, i):
        n = f.N[i]
        self.f, self.i, self.ok = f, i, False
        self.var = self.start = self.bound = self.step = None
        init, cond, inc = n.get("init", -1), n.get("cond", -1), n.get("inc", -1)
        self.cond, self.inc, self.body = cond, inc, n["body"]
        if min(init, cond, inc) < 0:
            return
        d = f.N[init]
        if d["k"] == "Decl" and len(d["vars"]) == 1 and d["vars"][0].get("i", -1) >= 0:
            self.var = d["vars"][0]["v"]
            self.start = nm.poly(d["vars"][0]["i"])
        else:
            return
        c = f.N[nm.strip(cond)]
        if c["k"] == "Bin" and c.get("op") in ("<", "!=", ">", "<="):
            l, r = nm.poly(c["c"][0]), nm.poly(c["c"][1])
            me = Poly({(self.var,): 1})
            if c["op"] in ("<", "!=") and l == me:
                self.bound = r
            elif c["op"] == ">" and r == me:
                self.bound = l
            elif c["op"] == "<=" and l == me:
                self.bound = padd(r, Poly({(): 1}))
            elif c["op"] == "<" and (self.var,) in l and l[(self.var,)] == 1:
                self.bound = padd(r, padd(l, me, -1), -1)
            self.ne = c["op"] == "!="
        e = f.N[nm.strip(inc)]
        if e["k"] == "Un" and e.get("op") in ("++", "x++"):
            self.step = Poly({(): 1})
        elif e["k"] in ("Assign", "Bin", "CAssign", "Op") and e.get("op") == "+=" and len(e.get("c", [])) == 2:
            self.step = nm.poly(e["c"][1])
        elif e["k"] in ("Assign", "Bin") and e.get("op") == "=" and len(e.get("c", [])) == 2:
            self.step = padd(nm.poly(e["c"][1]), Poly({(self.var,): 1}), -1)
        self.ok = None not in (self.bound, self.step)


def has(p, name):
    return any(re.search(r"(^|[.>:])%s$" % name, a) for k in p for a in k)


def text(p):
    out = []
    for k, v in sorted(p.items()):
        t = "*".join(re.sub(r"#.*", "", a).replace("this->", "") for a in k)
        out.append((t if v == 1 and k else "%d%s" % (v, "*" + t if k else "")))
    return " + ".join(out) or "0"


def check(prog, rep, tier):
    T = c4.Threads(prog)
    if not T.entries:
        rep.note("no thread entry functions", "")
        return
    n = 0
    for f in T.lib:
        if norm(f.get("cls")) in T.wcls and f.key in T.reach and f.cfg is not None:
            n += worker_fn(prog, T, f, rep)
    for f in T.lib:
        identity(prog, T, f, rep)
    orders(prog, T, rep)
    handover(prog, T, rep)
    merge_tree(prog, T, rep)


def merge_tree(prog, T, rep):
    """partial results are combined so that everybody's ends up with worker 0, each once, and only when complete"""
    for f in T.lib:
        if f.key not in T.reach or norm(f.get("cls")) not in T.wcls or f.cfg is None:
            continue
        cls = norm(f.get("cls"))
        sib = {g.name.rsplit("::", 1)[-1]: g for g in prog.live() if norm(g.get("cls")) == cls}
        first, final = sib.get("first_merge_level"), sib.get("final_merge_level")
        if not first or not final or f in (first, final):
            continue
        # the partner a worker takes results from
        idx = lvl = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("op") == "[]" and n.get("o", -1) >= 0 and "workers" in pp.ex(f, n["o"]) and n.get("a"):
                idx = n["a"][0]
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Decl" and len(n["vars"]) == 1 and n["vars"][0].get("i", -1) >= 0:
                for j in f.walk(n["vars"][0]["i"]):
                    if c4.atomic(f.N[j]) and c4.last(f.N[j]) == "load" and pp.ex(f, f.N[j]["o"]).replace("this->", "") == "merge_level":
                        lvl = n["vars"][0]["v"]
        if idx is None or lvl is None:
            if idx is not None:
                rep.note("combination of partial results not recognised", f.short)
            continue
        vi = core.varinfo(f)
        e = path_expr(f, vi, idx)
        bad = None
        try:
            for n in range(1, 65):
                lo, hi = {}, {}
                for w in range(n):
                    th = {"worker_id": w, "max_workers": n}
                    hi[w] = cp.run(prog, first, {}, th)
                    lo[w] = cp.run(prog, final, {}, th)
                got = {}
                if lo[0] != 0:
                    bad = bad or "with %d workers, worker 0 stops before level 0" % n
                for w in range(n):
                    for l in range(hi[w], lo[w], -1):
                        p = cp.Ev(prog, f, {lvl: l}, {"worker_id": w, "max_workers": n}).ex(e)
                        if not isinstance(p, int) or not 0 <= p < n or p == w:
                            bad = bad or "with %d workers, worker %d wants results of worker %s at level %d" % (n, w, p, l)
                        elif p in got:
                            bad = bad or "with %d workers, results of worker %d are taken twice" % (n, p)
                        elif lo[p] != l or hi[p] < l:
                            bad = bad or "with %d workers, worker %d takes results of worker %d at level %d, which are complete at level %d" % (n, w, p, l, lo[p])
                        got[p] = w
                for w in range(1, n):
                    if w not in got:
                        bad = bad or "with %d workers, nobody takes the results of worker %d" % (n, w)
        except (cp.Unknown, cp.Thrown, TypeError) as x:
            rep.note("levels of combination are not constants", "%s %s" % (f.short, x))
            continue
        rep.add(not bad, "merge-tree", f.short, f.loc(idx), bad or "")


def path_expr(f, vi, i):
    n = f.N[i]
    while n["k"] in ("Cast", "Paren") and len(n.get("c", [])) == 1:
        i = n["c"][0]
        n = f.N[i]
    if n["k"] == "Ref" and n.get("v") in vi and vi[n["v"]].init is not None and not vi[n["v"]].muts:
        return vi[n["v"]].init
    return i


norm = c4.norm


def children(f, nm, i, kinds=("For",)):
    return [j for j in f.walk(i) if f.N[j]["k"] in kinds]


def worker_fn(prog, T, f, rep):
    nm = Norm(f)
    par = f.parents()
    strided = []
    cnt = 0
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "For":
            continue
        init = n.get("init", -1)
        if not (init >= 0 and fields(f, init, "worker_id")) and not (n.get("inc", -1) >= 0 and fields(f, n["inc"], "max_workers")):
            # via a local
            L = Loop(f, nm, i)
            if not (L.start is not None and has(L.start, "worker_id")) and not (L.step is not None and has(L.step, "max_workers")):
                continue
        L = Loop(f, nm, i)
        cnt += 1
        key = "%s|%s" % (f.short, f.loc(i).rsplit(":", 1)[0] + "#%d" % cnt)
        loc = f.loc(i)
        if not L.ok:
            rep.note("division of work in a form that is not recognised", "%s %s" % (f.short, loc))
            continue
        strided.append(L)
        wid = [k for k in L.start if any(re.search(r"worker_id$", a) for a in k)]
        good = len(wid) == 1 and len(wid[0]) == 1 and L.start[wid[0]] == 1
        rep.add(good, "start", key, loc, "" if good else "%s starts its share at %s instead of at the worker's number" % (f.short, text(L.start)))
        good = len(L.step) == 1 and has(L.step, "max_workers") and list(L.step.values()) == [1] and len(list(L.step)[0]) == 1
        rep.add(good, "step", key, loc, "" if good else "%s advances its share by %s instead of by the number of workers" % (f.short, text(L.step)))
        base = Poly({k: v for k, v in L.start.items() if k not in wid})
        good = not has(L.bound, "worker_id") and not has(L.bound, "max_workers") and L.bound.get((), 0) >= 0 and all(v > 0 for v in L.bound.values()) and not getattr(L, "ne", False)
        rep.add(good, "extent", key, loc, "" if good else "%s lets its share end at %s" % (f.short, text(L.bound)))
        L.base = base
        # the counter is its own; the loop runs to its end
        x = nm.vi.get(L.var)
        inc = set(f.walk(L.inc))
        moved = [m for m in assigned(f, L.var) if m not in inc]
        rep.add(not moved, "counter", key, loc, "" if not moved else "%s changes the counter of its share inside the loop (%s)" % (f.short, f.loc(moved[0])))
        inner = [Loop(f, nm, j) for j in f.walk(L.body) if f.N[j]["k"] == "For"]
        early = None
        for j in f.walk(L.body):
            k = f.N[j]["k"]
            if k == "Return" or k == "Break" and innermost(f, j) in (L.i,) + tuple(q.i for q in inner):
                if not abort_exit(f, j):
                    early = j
        rep.add(early is None, "to-the-end", key, loc, "" if early is None else "%s can leave its share unfinished (%s)" % (f.short, f.loc(early)))
        coverage(prog, T, f, nm, L, inner, rep, key)
    # several shares of one array are the same, or adjoin
    for a in strided:
        for o in strided:
            if o.i > a.i and getattr(a, "arrays", set()) & getattr(o, "arrays", set()) and a.base == o.base and a.bound != o.bound:
                rep.bad("overlap", "%s|%s" % (f.short, ", ".join(sorted(getattr(a, "arrays", set()) & getattr(o, "arrays", set())))), f.loc(o.i),
                        "%s divides columns up to %s a second time when it divides those up to %s" % (f.short, text(a.bound), text(o.bound)))
    # several shares in one function adjoin
    if len(strided) > 1:
        for L in strided:
            if L.base:
                good = any(o is not L and o.bound == L.base for o in strided)
                rep.add(good, "adjoining", "%s|%s" % (f.short, text(L.base)), f.loc(L.i), "" if good else "%s divides the elements from %s on, but none of its other shares ends there" % (f.short, text(L.base)))
    elif strided and strided[0].base:
        rep.bad("adjoining", "%s|%s" % (f.short, text(strided[0].base)), f.loc(strided[0].i), "%s leaves out the elements before %s" % (f.short, text(strided[0].base)))
    plain(prog, T, f, nm, strided, rep)
    return cnt


def assigned(f, v):
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] in ("Assign", "CAssign") or n["k"] == "Bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") or n["k"] == "Un" and n.get("op") in ("++", "--", "x++", "x--"):
            c = n.get("c", [])
            if c and f.N[c[0]]["k"] == "Ref" and f.N[c[0]].get("v") == v:
                out.append(i)
    return out


def innermost(f, j):
    ls = c4.loops(f, j)
    return ls[0] if ls else None


def abort_exit(f, j):
    """leaving because the whole operation is given up"""
    par = f.parents()
    x = j
    while x is not None:
        p = par.get(x)
        if p is not None and f.N[p]["k"] == "If":
            for y in f.walk(f.N[p]["cond"]):
                if c4.atomic(f.N[y]) and c4.last(f.N[y]) in ("load", "test"):
                    return True
        x = p
    return False


def subst(p, env):
    """a polynomial with atoms replaced by polynomials"""
    out = Poly()
    for k, v in p.items():
        t = Poly({(): v})
        for a in k:
            t = pmul(t, env.get(a, Poly({(a,): 1})))
        out = padd(out, t)
    return out


def called(prog, f, nm, i, depth):
    """element accesses made by a straight-line helper, seen from the call"""
    n = f.N[i]
    o = n.get("o", -1)
    if n.get("op") or o >= 0 and f.N[nm.strip(o)]["k"] != "This" or not n.get("a"):
        return []
    ts = [t for t in prog.targets(n) if t in prog.F]
    if len(ts) != 1:
        return []
    g = prog.F[ts[0]]
    if g.cfg is None or g.body < 0 or not (g.rel or "").startswith("cpp/lib_moment") or len(g.params) != len(n["a"]):
        return []
    if any(g.N[j]["k"] in ("For", "While", "Do", "RangeFor", "If", "Switch") for j in g.walk(g.body)):
        return []
    ng = Norm(g)
    env, bases = {}, {}
    for q, a in zip(g.params, n["a"]):
        if core.is_ptr(g.T[q["t"]]) or "*" in g.T[q["t"]]:
            bases[q["v"]] = nm.base(a)
        else:
            env[q["v"]] = nm.poly(a)
    out = []
    for b, x, j, w in accesses(prog, g, ng, g.body, depth + 1):
        if isinstance(x, tuple):
            continue
        x = subst(x, env)
        if b in bases:
            x = padd(x, bases[b][1])
            b = bases[b][0]
        elif not b.startswith("this->"):
            continue
        out.append((b, x, i, w))
    return out


def accesses(prog, f, nm, root, depth=0):
    """(array, index, node, is write) of element accesses below a node"""
    out = []
    wr = {}
    for i in f.walk(root):
        n = f.N[i]
        tgt = None
        if n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0:
            tgt = n["o"]
        elif (n["k"] in ("Assign", "CAssign") or n["k"] == "Bin" and n.get("op") in ("=", "+=", "-=", "*=", "/=")) and len(n.get("c", [])) == 2:
            tgt = n["c"][0]
        if tgt is not None:
            wr[nm.strip(tgt)] = i
    for i in f.walk(root):
        e = nm.element(i) if f.N[i]["k"] in ("Sub", "Un", "Call") else None
        if e is not None:
            out.append((e[0], e[1], wr.get(i, i), i in wr))
        n = f.N[i]
        if n["k"] == "Call" and depth < 2:
            out += [a for a in called(prog, f, nm, i, depth) if a[3]]
        if n["k"] == "Call" and re.match(r"std::(copy|copy_n|move|transform|fill|fill_n)$", n.get("fn", "")) and n.get("a"):
            if n["fn"] in ("std::copy", "std::move") and len(n["a"]) == 3:
                b, x = nm.base(n["a"][2])
                b0, x0 = nm.base(n["a"][0])
                b1, x1 = nm.base(n["a"][1])
                ln = padd(x1, x0, -1) if b0 == b1 else None
                out.append((b, ("range", x, ln), i, True))
    return out


def shared(f, nm, b):
    return b.startswith("this->") and not re.match(r"this->(unique_elements|scratch\w*)$", b)


def classify(x, c, rows, D):
    """place of index polynomial x as (column, row) cell: A column-major own column, B transposed, D diagonal, L linear"""
    C = (c,)
    if x == Poly({C: 1}):
        return ("L", None, None)
    for k, v in x.items():
        if len(k) == 2 and c in k and v == 1:
            d = k[0] if k[1] == c else k[1]
            rest = padd(x, Poly({k: 1}), -1)
            if d == c:
                continue
            if rest == Poly({C: 1}):
                return ("D", d, None)
            if not rest:
                return ("R", d, None)
            for r in rows:
                if rest == Poly({(r.var,): 1}):
                    return ("A", d, r)
            return ("?", d, None)
    for r in rows:
        for k, v in x.items():
            if len(k) == 2 and r.var in k and v == 1:
                d = k[0] if k[1] == r.var else k[1]
                rest = padd(x, Poly({k: 1}), -1)
                if rest == Poly({C: 1}):
                    return ("B", d, r)
    if not any(c in k for k in x):
        return ("N", None, None)
    return ("?", None, None)


def coverage(prog, T, f, nm, L, inner, rep, key):
    rows = [q for q in inner if q.ok and q.step == Poly({(): 1})]
    acc = [a for a in accesses(prog, f, nm, L.body) if shared(f, nm, a[0])]
    by = {}
    for b, x, i, w in acc:
        if isinstance(x, tuple):
            cl = classify(x[1], L.var, rows, None)
            kind = ("A", cl[1], ("range", x[2])) if cl[0] == "R" else ("?", None, None)
        else:
            kind = classify(x, L.var, rows, None)
        by.setdefault(b, []).append((kind, i, w, x))
    written = {b for b, v in by.items() if any(w for _, _, w, _ in v)}
    for b in sorted(written):
        W = [(kd, i, x) for kd, i, w, x in by[b] if w]
        name = b.replace("this->", "")
        kinds = {}
        for kd, i, x in W:
            kinds.setdefault(kd[0], []).append((kd, i, x))
        for kd, i, x in kinds.get("N", []):
            rep.bad("own-element", "%s|%s" % (key, name), f.loc(i), "%s writes `%s` at %s, which does not depend on the worker's share: every worker writes it" % (f.short, name, text(x) if not isinstance(x, tuple) else "one place"))
        for kd, i, x in kinds.get("?", []) + kinds.get("R", []):
            rep.note("index form not recognised", "%s %s" % (f.short, f.loc(i)))
        if "?" in kinds or "N" in kinds or "R" in kinds:
            continue
        strides = {kd[1] for k2 in ("A", "B", "D") for kd, i, x in kinds.get(k2, [])}
        if strides:
            good = len(strides) == 1
            rep.add(good, "stride", "%s|%s" % (key, name), f.loc(L.i), "" if good else "%s addresses `%s` with different row lengths: %s" % (f.short, name, ", ".join(sorted(re.sub(r"#.*", "", s).replace("this->", "") for s in strides))))
            if not good:
                continue
            D = next(iter(strides))
            dp = Poly({(D,): 1})
            # rows stay inside the column
            for kd, i, x in kinds.get("A", []) + kinds.get("B", []):
                r = kd[2]
                if isinstance(r, tuple):
                    continue
                good = r.bound == dp
                rep.add(good, "row-extent", "%s|%s" % (key, name), f.loc(i), "" if good else "%s takes rows up to %s of columns of length %s" % (f.short, text(r.bound), text(dp)))
            tri = {}
            for kd, i, x in kinds.get("B", []):
                r = kd[2]
                low = padd(r.start, Poly({(L.var,): 1}), -1)
                good = low in (Poly(), Poly({(): 1})) or (not any(L.var in k for k in r.start) and r.start == L.bound and bool(r.start))
                rep.add(good, "disjoint", "%s|%s" % (key, name), f.loc(i), "" if good else
                        "%s writes the transposed element of `%s` for rows from %s on: another worker writes the same element as part of its own column" % (f.short, name, text(r.start)))
            # all written
            A = kinds.get("A", [])
            starts = []
            L.arrays = getattr(L, "arrays", set()) | {b}
            for kd, i, x in A:
                r = kd[2]
                if isinstance(r, tuple):
                    starts.append(("range", r[1], i))
                else:
                    low = padd(r.start, Poly({(L.var,): 1}), -1)
                    starts.append((("zero" if not r.start else "diag" if not low else "above" if low == Poly({(): 1}) else ("at", text(r.start))), r, i))
            diag = bool(kinds.get("D"))
            bs = bool(kinds.get("B"))
            kindset = {s[0] for s in starts if isinstance(s[0], str)}
            if "zero" in kindset:
                full = True
            elif "diag" in kindset:
                full = bs
            elif "above" in kindset:
                full = bs and diag
            elif any(isinstance(s[0], tuple) for s in starts) and "range" in kindset:
                at = next(s[0][1] for s in starts if isinstance(s[0], tuple))
                ln = next(s[1] for s in starts if s[0] == "range")
                full = bs and ln is not None and text(ln) == at and at == text(L.bound)
            elif any(isinstance(s[0], tuple) for s in starts):
                full = False
            else:
                full = False
            rep.add(full, "every-element", "%s|%s" % (key, name), f.loc(L.i), "" if full else "%s does not write every element of its share of `%s`" % (f.short, name))
            if L.base == Poly() and "range" not in kindset:
                good = L.bound == dp
                rep.add(good, "extent", "%s|%s" % (key, name), f.loc(L.i), "" if good else "%s divides %s columns of a matrix whose columns have length %s" % (f.short, text(L.bound), text(dp)))
        # no turn without writing
        for k2 in ("A", "D", "L", "B"):
            group = {}
            for kd, i, x in kinds.get(k2, []):
                lp = kd[2].i if isinstance(kd[2], Loop) else L.i
                group.setdefault(lp, []).append(i)
            for lp, ws in group.items():
                q = L if lp == L.i else next(r for r in rows if r.i == lp)
                if k2 == "B" and not padd(q.start, Poly({(L.var,): 1}), -1):
                    continue    # the element on the diagonal may be left to the other branch
                good = path.before(f, nm.strip(q.inc), ws, start=nm.strip(q.cond))
                rep.add(good, "every-turn", "%s|%s|%s" % (key, name, k2), f.loc(ws[0]), "" if good else "%s can pass over an element of `%s` in its share" % (f.short, name))
    if not written and not any(i2 for i2 in accesses(prog, f, nm, L.body) if i2[3] and not i2[0].startswith("this->unique")):
        for b in sorted(by):
            R = [(kd, i, x) for kd, i, w, x in by[b]]
            ks = {kd[0] for kd, i, x in R}
            if not ks & {"A", "B"}:
                continue
            for kd, i, x in R:
                r = kd[2]
                if kd[0] != "A" or not isinstance(r, Loop):
                    continue
                low = padd(r.start, Poly({(L.var,): 1}), -1)
                dp = Poly({(kd[1],): 1})
                good = r.bound == dp and (not r.start or (not low and "B" in ks) or (low == Poly({(): 1}) and "B" in ks and "D" in ks)) and (L.bound == dp or bool(L.base))
                rep.add(good, "every-element", "%s|%s" % (key, b.replace("this->", "")), f.loc(i), "" if good else "%s does not look at every element of its share of `%s`" % (f.short, b.replace("this->", "")))
                break


def plain(prog, T, f, nm, strided, rep):
    """writes to shared state outside of any share"""
    inside = set()
    for L in strided:
        inside |= set(f.walk(L.i))
    for b, x, i, w in accesses(prog, f, nm, f.body):
        if not w or i in inside or not shared(f, nm, b) or isinstance(x, tuple):
            continue
        if not x or all(k == () for k in x):
            rep.bad("own-element", "%s|%s" % (f.short, b), f.loc(i), "%s writes one and the same element of `%s` from every worker" % (f.short, b.replace("this->", "")))
    for i in f.all_nodes():
        n = f.N[i]
        tgt = None
        if n["k"] == "Call" and n.get("op") in ("=", "+=", "-=", "++", "--") and n.get("o", -1) >= 0 and not n.get("fn", "").startswith("std::atomic") and not n.get("fn", "").startswith("std::__atomic"):
            tgt = n["o"]
        elif n["k"] in ("Assign", "CAssign") or n["k"] == "Bin" and n.get("op") in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
            tgt = n["c"][0] if n.get("c") else None
        elif n["k"] == "Un" and n.get("op") in ("++", "--", "x++", "x--"):
            tgt = n["c"][0]
        if tgt is None:
            continue
        t = f.N[nm.strip(tgt)]
        if t["k"] == "Mem":
            owner = norm((t.get("fd") or "?").rsplit("::", 1)[0])
            if owner not in T.wcls and owner.startswith("Moment") and pp.ex(f, nm.strip(tgt)).startswith("this->"):
                rep.bad("shared-write", "%s|%s" % (f.short, t["n"]), f.loc(i), "%s writes `%s`, which all workers share, without lock or atomic" % (f.short, t["n"]))
            elif owner in T.wcls:
                c = nm.strip(t["c"][0]) if t.get("c") else None
                if c is not None and f.N[c]["k"] not in ("This",) and "workers" in pp.ex(f, c):
                    rep.bad("shared-write", "%s|%s" % (f.short, t["n"]), f.loc(i), "%s writes another worker's `%s`" % (f.short, t["n"]))


def identity(prog, T, f, rep):
    """whoever makes workers numbers them 0 .. n-1 and tells them n"""
    nm = None
    for i in f.all_nodes():
        n = f.N[i]
        args = None
        if n["k"] == "Call" and re.search(r"std::(make_unique|make_shared)$", n.get("fn", "")):
            m = re.search(r"(?:unique_ptr|shared_ptr)<([\w:]+)", f.ty(i) or "")
            if m and norm(m.group(1)) in T.wcls:
                args, cls = n.get("a", []), norm(m.group(1))
        elif n["k"] == "Call" and c4.last(n) in ("emplace_back", "push_back") and n.get("o", -1) >= 0:
            m = re.match(r"(?:class )?std::(?:vector|deque|list)<\s*([\w:]+)", f.ty(n["o"]) or "")
            if m and norm(m.group(1)) in T.wcls:
                args, cls = n.get("a", []), norm(m.group(1))
        elif n["k"] == "Ctor" and norm(n.get("cls")) in T.wcls and len(n.get("a", [])) >= 2:
            args, cls = n["a"], norm(n["cls"])
        if not args or len(args) < 2:
            continue
        pos = places(prog, cls)
        if pos is None or max(pos) >= len(args):
            rep.note("worker constructor not recognised", "%s %s" % (f.short, f.loc(i)))
            continue
        nm = nm or Norm(f)
        wid, mx = nm.poly(args[pos[0]]), nm.poly(args[pos[1]])
        ls = c4.loops(f, i)
        if not ls or f.N[ls[0]]["k"] != "For":
            rep.note("workers made in a form that is not recognised", "%s %s" % (f.short, f.loc(i)))
            continue
        L = Loop(f, nm, ls[0])
        if not L.ok:
            rep.note("workers made in a form that is not recognised", "%s %s" % (f.short, f.loc(i)))
            continue
        key = "%s|%s" % (f.short, cls.rsplit("::", 1)[-1])
        good = wid == Poly({(L.var,): 1}) and not L.start and L.step == Poly({(): 1})
        rep.add(good, "numbered", key, f.loc(i), "" if good else "%s does not number its workers 0, 1, 2, ...: worker gets %s, counted from %s" % (f.short, text(wid), text(L.start)))
        good = mx == L.bound
        rep.add(good, "told", key, f.loc(i), "" if good else "%s makes %s workers but tells them there are %s" % (f.short, text(L.bound), text(mx)))
        good = path.before(f, nm.strip(L.inc), [i], start=nm.strip(L.cond))
        rep.add(good, "all-made", key, f.loc(i), "" if good else "%s can leave a worker out" % f.short)


def places(prog, cls):
    """positions of the constructor parameters that become worker_id and max_workers"""
    for f in prog.live():
        if f.get("ctor") and norm(f.get("cls")) == cls and f.get("inits") and not f.get("defaulted"):
            pos = {}
            for it in f.get("inits"):
                nme = (it.get("fd") or "").rsplit("::", 1)[-1]
                if nme in ("worker_id", "max_workers"):
                    for j in f.walk(it["i"]):
                        for k, p in enumerate(f.params):
                            if f.N[j]["k"] == "Ref" and f.N[j].get("v") == p["v"]:
                                pos[nme] = k
            if len(pos) == 2:
                return pos["worker_id"], pos["max_workers"]
    return None


ORD = re.compile(r"memory_order(?:_|::)(\w+)")


def order_of(f, i):
    n = f.N[i]
    for a in n.get("a", []):
        m = ORD.search(pp.ex(f, a))
        if m:
            return m.group(1)
    return "seq_cst"


def orders(prog, T, rep):
    """what workers hand to one another through an atomic is published with release and looked up with acquire"""
    W = {}
    for f in T.lib:
        for i in f.all_nodes():
            if c4.atomic(f.N[i]) and c4.last(f.N[i]) == "wait":
                fd = c4.obj(f, i)
                if fd:
                    W.setdefault(fd, []).append((f, i))
    for fd in sorted(W):
        pub = c4.is_pub(fd)
        s = c4.short(fd)
        for f in T.lib:
            for i in f.all_nodes():
                if pub(f, i) and not f.get("ctor"):
                    if f.key in T.launch and path.after(f, i, c4.launch_heads(T, f)) is True:
                        continue
                    o = order_of(f, i)
                    good = o in ("release", "acq_rel", "seq_cst")
                    rep.add(good, "release", "%s|%s" % (f.short, s), f.loc(i), "" if good else "%s publishes `%s` without release: what it announces may not be seen" % (f.short, s))
        for f, i in W[fd]:
            o = order_of(f, i)
            good = o in ("acquire", "seq_cst", "acq_rel")
            if not good:
                ld = [j for j in f.all_nodes() if c4.atomic(f.N[j]) and c4.last(f.N[j]) in ("load", "test") and c4.obj(f, j) == fd and order_of(f, j) in ("acquire", "seq_cst", "acq_rel")]
                good = path.after(f, i, ld) is True
            rep.add(good, "acquire", "%s|%s" % (f.short, s), f.loc(i), "" if good else "%s goes on from waiting for `%s` without acquire: it may not see what was announced" % (f.short, s))


def handover(prog, T, rep):
    """a worker takes another worker's results only after having seen them announced"""
    U, SEEN, BLIND = {}, {}, {}
    for f in T.lib:
        if f.key not in T.reach or f.cfg is None:
            continue
        cls = norm(f.get("cls"))
        own = cls in T.wcls
        nm = Norm(f)
        uses, seen, blind = [], [], []
        for i in f.all_nodes():
            n = f.N[i]
            if not own or n["k"] != "Mem" or norm((n.get("fd") or "?").rsplit("::", 1)[0]) != cls or not n.get("c"):
                continue
            b = nm.strip(n["c"][0])
            if f.N[b]["k"] == "This":
                continue
            if re.search(r"std::atomic|std::__atomic", f.ty(i) or ""):
                continue
            if (f.ty(i) or "").startswith("const ") or n["n"] in ("worker_id", "max_workers"):
                continue
            uses.append(i)
        for i in f.all_nodes():
            n = f.N[i]
            if c4.atomic(n) and c4.last(n) in ("load",):
                o = n.get("o", -1)
                m = f.N[nm.strip(o)] if o >= 0 else None
                if m is not None and m["k"] == "Mem" and m.get("c") and f.N[nm.strip(m["c"][0])]["k"] != "This" and norm(m["fd"].rsplit("::", 1)[0]) in T.wcls:
                    (seen if order_of(f, i) in ("acquire", "seq_cst") else blind).append(i)
        U[f.key], SEEN[f.key], BLIND[f.key] = uses, seen, blind
    # a helper that surely looks at the announcement
    ch = True
    while ch:
        ch = False
        sure = {k for k in SEEN if SEEN[k] and not BLIND[k] and c4.from_entry(prog.F[k], SEEN[k])}
        for k in SEEN:
            f = prog.F[k]
            for i in f.all_nodes():
                if f.N[i]["k"] == "Call" and i not in SEEN[k] and any(t in sure for t in prog.targets(f.N[i])):
                    SEEN[k].append(i)
                    ch = True

    def shown(f, i, depth=0):
        if path.before(f, i, SEEN[f.key]) and not any(path.reach(f, b, i, SEEN[f.key]) for b in BLIND[f.key]):
            return True
        if SEEN[f.key] or BLIND[f.key] or depth > 3:
            return False
        # a helper: those who call it have seen it
        cs = [(g, j) for g in T.lib if g.key in SEEN for j in g.all_nodes() if g.N[j]["k"] == "Call" and f.key in prog.targets(g.N[j])]
        return bool(cs) and all(shown(g, j, depth + 1) for g, j in cs)
    for k in sorted(U):
        f = prog.F[k]
        for i in U[k]:
            good = shown(f, i)
            rep.add(good, "handover", "%s|%s" % (f.short, f.N[i]["n"]), f.loc(i), "" if good else "%s uses another worker's `%s` without having seen it announced" % (f.short, f.N[i]["n"]))
    for f in T.lib:
        if f.key not in T.reach or norm(f.get("cls")) not in T.wcls or f.cfg is None:
            continue
        pubs = [i for i in f.all_nodes() if c4.atomic(f.N[i]) and c4.last(f.N[i]) in c4.PUB and norm((c4.obj(f, i) or "?").rsplit("::", 1)[0]) in T.wcls]
        if not pubs:
            continue
        marks = [i for i in f.all_nodes() if c4.atomic(f.N[i]) and c4.last(f.N[i]) in ("load", "wait")]
        nm = Norm(f)
        for p in pubs:
            late = None
            for i in f.all_nodes():
                n = f.N[i]
                if i == p:
                    continue
                changed = False
                if n["k"] == "Call" and n.get("o", -1) >= 0 and not n.get("mconst") and not c4.atomic(n):
                    m = f.N[nm.strip(n["o"])]
                    changed = m["k"] == "Mem" and norm((m.get("fd") or "?").rsplit("::", 1)[0]) in T.wcls and not re.search(r"promise|thread|exception_ptr", f.ty(nm.strip(n["o"])) or "")
                if n["k"] in ("Call", "Ctor"):
                    for a, m in zip(n.get("a", []), n.get("pm", "")):
                        t = f.N[nm.strip(a)]
                        if m == "m" and t["k"] == "Mem" and t.get("c") and f.N[nm.strip(t["c"][0])]["k"] == "This" and not c4.atomic(n):
                            changed = True
                if n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0:
                    e = nm.element(n["o"])
                    changed = changed or e is not None and shared(f, nm, e[0])
                if changed and path.reach(f, p, i, marks):
                    late = i
            rep.add(late is None, "announced-last", "%s|%s" % (f.short, c4.short(c4.obj(f, p))), f.loc(p), "" if late is None else
                    "%s announces `%s` before it has finished (%s)" % (f.short, c4.short(c4.obj(f, p)), f.loc(late)))
