"""C20: every loop makes progress on each pass."""
import ir, core, dep, pp

RULE = ("loop progress: for every loop of the control flow graph, every cyclic path through the loop must change something that a condition leaving the loop depends on "
        "(transitively, through data and control inside the loop); counters must move towards the bound they are compared with; recursive calls must change an argument")
TECHNIQUE = "natural loops of the control flow graph; search for a cycle free of progress statements; direction analysis of counters; recursion argument comparison"
LEVEL = "other"


ACCESS = ("begin", "end", "operator[]", "at", "front", "back", "data", "operator->", "operator*", "get", "find", "cbegin", "cend", "value",
          "rbegin", "rend", "operator bool", "lower_bound", "upper_bound")


def loops(f):
    """(header, set of blocks) for every loop, outermost first"""
    cfg = f.cfg
    out = []

    def sccs(nodes):
        idx, low, st, on, res = {}, {}, [], set(), []
        n = [0]
        for r in nodes:
            if r in idx:
                continue
            work = [(r, iter([s for s in cfg.succ[r] if s in nodes]))]
            idx[r] = low[r] = n[0]
            n[0] += 1
            st.append(r)
            on.add(r)
            while work:
                x, it = work[-1]
                adv = False
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = n[0]
                        n[0] += 1
                        st.append(s)
                        on.add(s)
                        work.append((s, iter([t for t in cfg.succ[s] if t in nodes])))
                        adv = True
                        break
                    if s in on:
                        low[x] = min(low[x], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop()
                        on.discard(y)
                        c.add(y)
                        if y == x:
                            break
                    res.append(c)
        return res

    def rec(nodes):
        for c in sccs(nodes):
            if len(c) == 1:
                x = next(iter(c))
                if x not in cfg.succ[x]:
                    continue
            heads = [x for x in c if any(p not in c for p in cfg.pred[x] if p in cfg.reach)]
            h = heads[0] if heads else min(c)
            out.append((h, frozenset(c)))
            rec(c - {h})
    rec(set(cfg.reach))
    return out


def nodes_in(f, L):
    cfg = f.cfg
    return {e for b in L for e in cfg.b[b]["e"]}


def pos_in(f, x, L):
    """is node x evaluated inside the loop (its own element, or that of the enclosing full expression)"""
    import path
    w = path._pos(f, x)
    return w is not None and w[0] in L, (w[0] if w else None)


def root_key(f, nid):
    r, fields, ptr = core.lval_root(f, nid)
    if r == "this" or ptr or r is None:
        return ("field", fields[0].rsplit("::", 1)[-1] if fields else "*") if r is not None else None
    return ("var", r)


class Deps:
    """what the conditions leaving a loop depend on"""

    def __init__(self, f, conds):
        self.vars = set()
        self.shared = False       # fields, globals, things behind pointers, results of impure calls
        self.fields = set()
        self.impure = []          # call nodes that may change by themselves
        seen = set()
        for c in conds:
            for g, cn, x in dep.closure(f, c, None, True, True, seen):
                n = g.N[x]
                k = n["k"]
                if k == "Ref":
                    if n.get("dk") in ("parm", "local", "bind", "slocal"):
                        self.vars.add(n["v"])
                    elif n.get("dk") == "glob":
                        self.shared = True
                elif k == "This":
                    self.shared = True
                elif k == "Mem":
                    self.fields.add(n["n"].rsplit("::", 1)[-1])
                    if n.get("arrow"):
                        self.shared = True
                elif k == "Call":
                    self.impure.append(x)


def literal_rhs(f, a):
    """a change that, made again, changes nothing: a constant or a restart is assigned, or bits are only set or masked"""
    n = f.N[a]
    op = n.get("op", "=")
    if n["k"] == "Assign" and op in ("|=", "&=") or n["k"] == "Call" and op in ("|=", "&="):
        return True
    rhs = n["c"][1] if n["k"] == "Assign" and op == "=" else n["a"][0] if n["k"] == "Call" and op == "=" and len(n.get("a", [])) == 1 else None
    if rhs is not None:
        x = strip(f, rhs)
        m = f.N[x]
        if m["k"] == "Ctor" and len(m.get("a", [])) == 1 and m.get("sp") in ("copy", "move"):
            m = f.N[strip(f, m["a"][0])]
        if m["k"] == "Call" and not m.get("a") and m.get("fn", "").rsplit("::", 1)[-1] in ("begin", "cbegin", "rbegin", "end", "cend", "rend"):
            return True
    if n["k"] != "Assign" or n.get("op", "=") != "=":
        return False
    x = n["c"][1]
    while f.N[x]["k"] in ("Cast", "Un") and f.kids(x):
        x = f.kids(x)[0]
    return f.N[x]["k"] in ("Bool", "Int", "Lit", "Flt", "Enum", "Char") or f.N[x]["k"] == "Ref" and f.N[x].get("dk") == "enum"


def progress_nodes(f, L, D):
    """nodes inside the loop that change something the exit depends on; -> (strong, constant assignments)"""
    vi = core.varinfo(f)
    strong, const = set(), set()
    mutlam = {}
    for v in D.vars:
        g = vi.get(v)
        if g is None:
            continue
        for a in g.muts:
            (const if literal_rhs(f, a) else strong).add(a)
            if f.N[a]["k"] == "Lambda":
                mutlam[f.N[a]["f"]] = a
        if g.rangevar is not None:
            pass
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Call":
            # a local function object that changes what it captured
            if mutlam and n.get("f") in mutlam:
                strong.add(x)
            # non-const calls, and calls of anything with unseen effects, change shared state
            if D.shared or D.fields:
                if "o" in n and n["o"] is not None and n["o"] >= 0 and not n.get("mconst") and not n.get("static"):
                    r, fields, ptr = core.lval_root(f, n["o"])
                    local = r in vi and not ptr and vi[r].kind in ("local", "bind", "parm") and "&" not in vi[r].t and "*" not in vi[r].t
                    if n.get("fn", "").rsplit("::", 1)[-1] not in ACCESS and not local:
                        (const if literal_rhs(f, x) else strong).add(x)
                elif "m" in n.get("pm", "") or "r" in n.get("pm", ""):
                    strong.add(x)
                elif not n.get("f") and n.get("fn", "").startswith("std::this_thread"):
                    strong.add(x)
        elif n["k"] in ("Assign",) or n["k"] == "Un" and n.get("op") in ("++", "--"):
            r, fields, ptr = core.lval_root(f, n["c"][0])
            if (r == "this" or ptr or r is None or str(r).startswith("G:")) and (D.shared or any(q.rsplit("::", 1)[-1] in D.fields for q in fields)):
                if not fields or any(q.rsplit("::", 1)[-1] in D.fields for q in fields) or ptr or r is None or str(r).startswith("G:"):
                    (const if literal_rhs(f, x) else strong).add(x)
    return strong, const


def stuck(f, h, L, strong):
    """a cycle through the header that passes no progress node (list of blocks) or None"""
    import path
    ev = set()
    for x in strong:
        w = path._pos(f, x)
        if w is not None and w[0] in L:
            ev.add(w[0])
    if h in ev:
        return None
    prev = {}
    st = [s for s in f.cfg.succ[h] if s in L]
    for s in st:
        prev.setdefault(s, h)
    seen = set()
    while st:
        x = st.pop()
        if x == h:
            p, y = [], prev.get(h)
            while y is not None and y != h and len(p) < 100:
                p.append(y)
                y = prev.get(y)
            return p[::-1]
        if x in seen or x in ev:
            continue
        seen.add(x)
        for s in f.cfg.succ[x]:
            if s in L and (s not in prev or s == h):
                prev[s] = x
                st.append(s)
    return None


def const_facts(F, f, e):
    """literals known after assigning a constant to a variable"""
    n = f.N[e]
    v = None
    if n["k"] == "Assign" and n.get("op", "=") == "=":
        v, rhs = F.cn(n["c"][0]), F.cn(n["c"][1])
    else:
        return None
    if rhs[0] not in ("int", "enum"):
        return None
    out = {(("eq",) + tuple(sorted((v, rhs), key=repr)), True)}
    if rhs[0] == "int":
        out.add((v, bool(rhs[1])))
        out.add((("ok", v), bool(rhs[1])))
    return out


def feasible(f, h, L, strong, passes=3, cap=4000):
    """can the loop be passed `passes` times in a row along paths without progress, as far as branch conditions and assigned constants tell? None: gave up"""
    import path
    F = f._memo.get("c20facts")
    if F is None:
        F = f._memo["c20facts"] = core.Facts(f)
    ev = set()
    for x in strong:
        w = path._pos(f, x)
        if w is not None:
            ev.add(w[0])
    start = {frozenset()}
    budget = [cap]
    for _ in range(passes):
        ends = set()
        seen = set()
        st = [(h, s, True) for s in start]
        while st:
            b, s, first = st.pop()
            if b == h and not first:
                ends.add(s)
                continue
            if (b, s) in seen or b in ev:
                continue
            seen.add((b, s))
            budget[0] -= 1
            if budget[0] < 0:
                return None
            for e in f.cfg.b[b]["e"]:
                s = F.step(s, e)
                c = const_facts(F, f, e)
                if c:
                    s = s | c
            for idx, t in enumerate(f.cfg.b[b]["s"]):
                if t is None or t not in L:
                    continue
                q = F.edge(b, idx, t, s)
                if q is None:
                    continue
                bad = False
                for a, tr in q:
                    if a[0] == "eq" and tr:
                        for a2, tr2 in q:
                            if a2[0] == "eq" and tr2 and a2 != a:
                                sh = set(a[1:]) & set(a2[1:])
                                ot = [y for y in set(a[1:]) ^ set(a2[1:])]
                                if len(sh) == 1 and len(ot) == 2 and all(y[0] in ("int", "enum") for y in ot) and ot[0] != ot[1]:
                                    bad = True
                if not bad:
                    st.append((t, frozenset(q), False))
        if not ends:
            return False
        start = ends
    return True


def first_loc(f, L, h):
    for b in [h] + sorted(L):
        t = f.cfg.b[b].get("t")
        if t is not None and t >= 0 and f.N[t]["k"] in ("For", "While", "Do", "RangeFor"):
            return f.loc(t)
    for b in [h] + sorted(L):
        for e in f.cfg.b[b]["e"]:
            return f.loc(e)
    return f.loc()


def exit_conds(f, L):
    out = []
    for b in L:
        ss = f.cfg.b[b]["s"]
        if any(s is None or s not in L for s in ss) and len(ss) > 1:
            c = f.cfg.cond(b)
            if c is not None and c >= 0:
                out.append(c)
            else:
                t = f.cfg.b[b].get("t")
                if t is not None and t >= 0 and f.N[t]["k"] == "RangeFor":
                    out.append(t)
                elif t is not None and t >= 0 and f.N[t].get("cond", -1) is not None and f.N[t].get("cond", -1) >= 0:
                    out.append(f.N[t]["cond"])
    return out


def check(prog, rep, tier):
    for f in prog.live():
        if not f.rel.startswith("cpp") or f.cfg is None:
            continue
        for h, L in loops(f):
            loc = first_loc(f, L, h)
            key = "%s: loop" % f.short
            conds = exit_conds(f, L)
            if not conds:
                t = any(s not in L for b in L for s in f.cfg.succ[b]) or any(b in f.cfg.throws for b in L)
                rep.add(t, "loop-progress", key, loc, "" if t else "the loop in %s has no way out" % f.short)
                continue
            D = Deps(f, conds)
            strong, const = progress_nodes(f, L, D)
            p = stuck(f, h, L, strong)
            if p is not None:
                fe = feasible(f, h, L, strong)
                if fe is None:
                    rep.note("loop-progress: %s at %s has too many paths to decide" % (f.short, loc))
                    continue
                if not fe:
                    p = None
            if p is None:
                rep.ok("loop-progress", key, loc)
            else:
                lines = sorted({f.loc(e) for b in p for e in f.cfg.b[b]["e"]})
                rep.bad("loop-progress", key, loc, "a pass through the loop in %s changes nothing that leaving it depends on (`%s`)" % (f.short, "`, `".join(pp.ex(f, c)[:60] for c in conds[:3])))
            direction(f, L, conds, rep, key, loc)
            own(f, h, L, rep, key, loc)
        recursion(prog, f, rep)
    rep.floor("loop-progress", 300)


def steps(f, v, L):
    """+1 / -1 for every change of variable v inside the loop, None for a change of another kind"""
    out = set()
    for a in core.varinfo(f)[v].muts:
        i, b = pos_in(f, a, L)
        if not i:
            continue
        n = f.N[a]
        if n["k"] == "Un" and n["op"] in ("++", "--"):
            out.add(1 if n["op"] == "++" else -1)
        elif n["k"] == "Assign" and n.get("op") in ("+=", "-="):
            x = n["c"][1]
            while f.N[x]["k"] == "Cast":
                x = f.kids(x)[0]
            m = f.N[x]
            if m["k"] == "Int" and m.get("val", m.get("v", 0)) not in (0, "0"):
                out.add(1 if n["op"] == "+=" else -1)
            else:
                out.add(None)
        elif n["k"] == "Call" and n.get("op") in ("++", "--"):
            out.add(1 if n["op"] == "++" else -1)
        else:
            out.add(None)
    return out


def strip(f, x):
    while f.N[x]["k"] in ("Cast", "Paren") and len(f.kids(x)) == 1:
        x = f.kids(x)[0]
    return x


def direction(f, L, conds, rep, key, loc):
    own = [f.N[t]["cond"] for t in {f.cfg.b[b].get("t") for b in L} if t is not None and t >= 0 and f.N[t]["k"] in ("While", "For", "Do") and f.N[t].get("cond", -1) in conds]
    if len(conds) != 1 and len(own) != 1:
        return
    the = own[0] if len(own) == 1 else conds[0]
    c = strip(f, the)
    n = f.N[c]
    if n["k"] != "Bin" or n["op"] not in ("<", ">", "<=", ">=", "!="):
        return
    stay = None
    for b in L:
        if f.cfg.cond(b) == the and len(f.cfg.b[b]["s"]) == 2:
            s = f.cfg.b[b]["s"]
            stay = s[0] in L
    if not stay:
        return
    l, r = strip(f, n["c"][0]), strip(f, n["c"][1])
    op = n["op"]
    vi = core.varinfo(f)
    for x, y, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op])):
        m = f.N[x]
        if m["k"] != "Ref" or m.get("v") not in vi or not core.is_int_type(core.strip_cv(f.ty(x).replace("&", ""))):
            continue
        st = steps(f, m["v"], L)
        if not st or None in st or len(st) != 1:
            continue
        # the bound must not move
        if any(f.N[z]["k"] == "Ref" and f.N[z].get("v") in vi and any(pos_in(f, a, L)[0] for a in vi[f.N[z]["v"]].muts) for z in f.walk(y)):
            continue
        d = next(iter(st))
        want = {"<": 1, "<=": 1, ">": -1, ">=": -1}.get(o)
        if want is None:
            continue
        if d != want:
            rep.bad("counter-direction", key, loc, "the counter `%s` of the loop in %s moves away from its bound" % (pp.ex(f, x), f.short))
        elif o == ">=" and core.is_unsigned(core.strip_cv(f.ty(x).replace("&", ""))) and f.N[y]["k"] == "Int" and str(f.N[y].get("val", f.N[y].get("v"))) == "0":
            rep.bad("counter-direction", key, loc, "the unsigned counter `%s` of the loop in %s can never be negative" % (pp.ex(f, x), f.short))
        else:
            rep.ok("counter-direction", key, loc)


def recursion(prog, f, rep):
    vi = core.varinfo(f)
    cn = None
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Call" or n.get("f") != f.key:
            continue
        cn = cn or core.Canon(f)
        a = n.get("a", [])
        if len(a) != len(f.params):
            continue
        same = all(cn(x) == ("v", p["v"]) and not vi[p["v"]].muts for x, p in zip(a, f.params))
        if "o" in n and n["o"] is not None and n["o"] >= 0:
            same = same and f.N[strip(f, n["o"])]["k"] == "This"
        # something must change before the call is made again: an argument, or (for non-const operations) the object
        if same and not f.get("const") and "o" in n and any(f.N[x]["k"] in ("Assign",) or f.N[x]["k"] == "Call" and not f.N[x].get("mconst") and x != i and "o" in f.N[x] for x in f.all_nodes()):
            same = False
        rep.add(not same, "recursion-progress", "%s: recursive call" % f.short, f.loc(i), "" if not same else "%s calls itself with the arguments it was given" % f.short)


def own(f, h, L, rep, key, loc):
    """the condition written in the loop statement itself can change inside the loop"""
    t = None
    for b in L:
        x = f.cfg.b[b].get("t")
        if x is not None and x >= 0 and f.N[x]["k"] in ("While", "For", "Do") and any(s is not None and s not in L for s in f.cfg.b[b]["s"]):
            t = x
            break
    if t is None:
        return
    c = f.N[t].get("cond", -1)
    if c is None or c < 0:
        return
    D = Deps(f, [c])
    if not D.vars and not D.shared and not D.impure:
        return
    strong, const = progress_nodes(f, L, D)
    hit = any(pos_in(f, a, L)[0] for a in strong | const)
    rep.add(hit, "loop-condition", key, loc, "" if hit else "nothing inside the loop in %s changes its condition `%s`" % (f.short, pp.ex(f, c)[:80]))
