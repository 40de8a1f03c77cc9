"""Values used after they were given away (std::move into something that takes them over)."""
import re
import core, path, pp

HEAVY = re.compile(r"std::(vector|unique_ptr|shared_ptr|basic_string|string|map|set|multimap|multiset|unordered_\w+|deque|list|function|future|promise|thread|unique_lock|stack|queue)\b|SmallVector\b")
REINIT = {"clear", "reset", "assign", "operator=", "swap", "emplace"}


def heavy(prog, t, depth=0, memo=None):
    """moving from an object of this type changes it"""
    memo = memo if memo is not None else {}
    t = core.strip_cv(t).rstrip("& ")
    if core.is_ptr(t) or core.is_int_type(t) or t in ("bool", "double", "float"):
        return False
    if HEAVY.match(re.sub(r"^(Moment::)", "", t)) or HEAVY.search(t):
        return True
    if t in memo:
        return memo[t]
    memo[t] = False
    if depth < 6:
        r = prog.R.get(t)
        if r is not None:
            memo[t] = any(heavy(prog, x["t"], depth + 1, memo) for x in r.get("fields", []) if not x.get("ref")) or \
                any(heavy(prog, b if isinstance(b, str) else b.get("n", ""), depth + 1, memo) for b in r.get("bases", []))
    return memo[t]


def pathof(f, i):
    r, fl, p = core.lval_root(f, i)
    return r, [x for x in fl]


def consumer(f, i):
    """the node at which the value is really taken over, and how: ('value' | 'ref', node, whole-parent)"""
    par = f.parents()
    c, p = i, par.get(i)
    while p is not None and f.N[p]["k"] in ("Cast", "Temp", "Paren", "Implicit", "Cleanups"):
        c, p = p, par.get(p)
    if p is None:
        # a member or base initialiser
        return "ref", i
    n = f.N[p]
    if n["k"] == "Ctor":
        return ("value" if n.get("sp") == "move" else "ref"), p
    if n["k"] == "Call":
        return "ref", p
    if n["k"] in ("InitList", "Return", "Decl", "Assign", "Cond", "Lambda", "New"):
        return "ref", p
    return None, p


def moves(prog, f, memo):
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("fn") == "std::move" and len(n.get("a", [])) == 1:
            a = n["a"][0]
            r, fl = pathof(f, a)
            if r is None:
                continue
            if not heavy(prog, f.ty(a), 0, memo):
                continue
            if "[]" in fl or core.lval_root(f, a)[2]:
                continue
            kind, c = consumer(f, i)
            if kind is None:
                continue
            out.append((i, a, r, fl, kind, c))
    return out


def compat(a, b):
    """one path is a prefix of the other"""
    n = min(len(a), len(b))
    for x, y in zip(a[:n], b[:n]):
        if x != y:
            return False
    return True


def reads(prog, key, field, depth=0, seen=None):
    """does the function (or what it calls with it) mention the field"""
    seen = seen if seen is not None else set()
    g = prog.F.get(key)
    if g is None or g.body is None or depth > 4:
        return g is None or g.body is None
    if key in seen:
        return False
    seen.add(key)
    for i in g.all_nodes():
        n = g.N[i]
        if n["k"] == "Mem" and n["n"] == field:
            return True
    for x in g.get("inits", []) or []:
        if x.get("fd", "").rsplit("::", 1)[-1] == field:
            return True
    for i in g.all_nodes():
        n = g.N[i]
        if n["k"] in ("Call", "Ctor") and n.get("f") in prog.F and prog.F[n["f"]].rel.startswith("cpp/lib_moment"):
            if reads(prog, n["f"], field, depth + 1, seen):
                return True
    return False


def plain_move(prog, t):
    """records whose move is member by member"""
    r = prog.R.get(core.strip_cv(t).rstrip("& "))
    if r is None:
        return None
    for m in r.get("methods", []):
        if m.get("ctor") == "move" and not m.get("dflt"):
            return None
    return r


def touches_taken(prog, f, par, t, ufl, fl, ty):
    """the use of an enclosing object is a call: does the callee look at the part that was given away"""
    c, p = t, par.get(t)
    while p is not None and f.N[p]["k"] in ("Paren", "Temp", "Implicit", "Cast"):
        c, p = p, par.get(p)
    if p is None or f.N[p]["k"] != "Call":
        return True
    n = f.N[p]
    g = prog.F.get(n.get("f"))
    if g is None or g.body is None or not g.rel.startswith("cpp/lib_moment") or g.get("virt"):
        return True
    if len(ufl) < len(fl):
        return reads(prog, g.key, fl[len(ufl)])
    if len(ufl) == len(fl) and n.get("o") == c:
        r = plain_move(prog, ty)
        if r is None:
            return True
        memo = {}
        todo = [r]
        while todo:
            r = todo.pop()
            for x in r.get("fields", []):
                if heavy(prog, x["t"], 0, memo) and reads(prog, g.key, x["n"]):
                    return True
            for b in r.get("bases", []):
                b = prog.R.get(b if isinstance(b, str) else b.get("n", ""))
                if b is not None:
                    todo.append(b)
        return False
    return True


def tops(f, root):
    """maximal access paths that start at a variable: [(top node, fields)]"""
    par = f.parents()
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if (root == "this" and n["k"] == "This") or (n["k"] == "Ref" and n.get("v") == root):
            t, fl = i, []
            while True:
                p = par.get(t)
                if p is None:
                    break
                m = f.N[p]
                if m["k"] == "Mem" and m.get("c") and m["c"][0] == t:
                    fl.append(m["n"])
                    t = p
                elif m["k"] == "Un" and m["op"] == "*" and root == "this":
                    t = p
                elif m["k"] == "Cast":
                    t = p
                else:
                    break
            out.append((t, fl, i))
    return out


def check(prog, rep, lib):
    memo = {}
    nm = nf = 0
    for f in prog.live():
        if not lib(f) or f.cfg is None:
            continue
        mv = moves(prog, f, memo)
        if not mv:
            continue
        nf += 1
        par = f.parents()
        vi = core.varinfo(f)
        for (i, a, r, fl, kind, c) in mv:
            nm += 1
            key = "%s|%s" % (f.short, pp.ex(f, a))
            uses, re_ = [], []
            decl = None
            for j in f.all_nodes():
                n = f.N[j]
                if n["k"] == "Decl" and any(v["v"] == r for v in n["vars"]):
                    re_.append(j)
                if n["k"] == "RangeFor" and (n.get("v") == r or (inside(par, i, j) and bound_in(f, n, r))):
                    decl = j
            rng = None
            v = vi.get(r)
            if v is not None and getattr(v, "rangevar", None) is not None:
                rng = v.rangevar
            for t, ufl, leaf in tops(f, r):
                if not compat(fl, ufl):
                    continue
                if inside(par, t, i):
                    continue
                cls = classify(f, par, t, f.ty(t), ufl, fl)
                if cls == "reinit":
                    re_.append(reinit_node(f, par, t))
                elif cls == "use":
                    if len(ufl) <= len(fl) and not touches_taken(prog, f, par, t, ufl, fl, f.ty(a)):
                        continue
                    uses.append(t)
            # base initialiser: only the base part goes
            basepart = base_init(prog, f, i)
            bad = None
            for t in uses:
                if basepart is not None:
                    ufl = [x for (tt, x, l) in tops(f, r) if tt == t]
                    if ufl and ufl[0] and ufl[0][0] not in basepart:
                        continue
                q = common_call(f, par, c, t)
                if q is not None:
                    if kind == "value" and not f.N[q].get("brace"):
                        bad = (t, "in the same call")
                        break
                    if inside(par, t, c) or q == c:
                        continue
                    if f.N[q].get("o") is not None and inside(par, t, f.N[q].get("o", -1)):
                        continue
                if inside(par, t, c):
                    continue
                if rng is not None or decl is not None:
                    if not same_pass(f, par, c, t, r):
                        continue
                if path.reach(f, c, t, avoid=[x for x in re_ if x is not None]):
                    if infeasible(f, par, i, t):
                        continue
                    bad = (t, "afterwards")
                    break
            rep.add(bad is None, "use-after-move", key, f.loc(i), "" if bad is None else
                    "%s gives away `%s` and uses `%s` %s (%s)" % (f.short, pp.ex(f, a), pp.ex(f, bad[0])[:60], bad[1], f.loc(bad[0])))
    rep.extra["moves analysed"] = nm
    rep.extra["functions with moves"] = nf


def bound_in(f, n, r):
    """r is a structured binding of the loop"""
    s = str(r)
    return any(f.N[j]["k"] == "Ref" and f.N[j].get("v") == r and f.N[j].get("dk") == "bind" for j in f.walk(n.get("body", -1)))


def inside(par, x, anc):
    while x is not None:
        if x == anc:
            return True
        x = par.get(x)
    return False


def reinit_node(f, par, t):
    p = par.get(t)
    return p if p is not None else t


def classify(f, par, t, ty, ufl, fl):
    c, p = t, par.get(t)
    while p is not None and f.N[p]["k"] in ("Paren", "Temp", "Implicit"):
        c, p = p, par.get(p)
    if p is None:
        return "use"
    n = f.N[p]
    if n["k"] == "Assign" and n["c"][0] == c and n["op"] == "=":
        return "reinit" if len(ufl) <= len(fl) else "other"
    if n["k"] == "Cast" and n.get("cast") == "ToVoid":
        return "other"
    if n["k"] == "Call":
        fn = n.get("fn", "") or ""
        last = fn.rsplit("::", 1)[-1]
        isuniq = "unique_ptr" in f.ty(c)
        if n.get("o") == c:
            if last in REINIT or n.get("op") == "=":
                return "reinit" if len(ufl) <= len(fl) else "other"
            if isuniq and last in ("operator bool", "operator==", "operator!="):
                return "other"
            return "use"
        if c in n.get("a", []):
            k = n["a"].index(c)
            pm = n.get("pm", "") or ""
            if last == "swap":
                return "reinit"
            if isuniq and last in ("operator==", "operator!=", "operator bool"):
                return "other"
            if k < len(pm) and pm[k] in ("m", "p"):
                # handed to something that may give it a new value
                return "reinit" if fn.startswith("std::") is False or last in ("getline",) else "use"
            if n.get("fn") in ("std::move", "std::forward") :
                return "use"
        return "use"
    if n["k"] == "Un" and n["op"] == "&":
        return "other"
    if n["k"] == "Lambda":
        return "other"
    if n["k"] == "Return" and core.is_ref(f.T[f.d["ret"]]) if isinstance(f.get("ret"), int) else False:
        return "other"
    return "use"


def base_init(prog, f, i):
    for x in f.get("inits", []) or []:
        if "base" in x and x.get("i") is not None and x["i"] >= 0 and inside(f.parents(), i, x["i"]):
            names = set()
            todo = [x["base"] if isinstance(x["base"], str) else ""]
            while todo:
                b = todo.pop()
                r = prog.R.get(b)
                if r is None:
                    for nm, rr in prog.R.items():
                        if nm.split("<")[0] == b.split("<")[0] and not nm.startswith("T:"):
                            r = rr
                            break
                if r is None:
                    continue
                names |= {y["n"] for y in r.get("fields", [])}
                todo += [y if isinstance(y, str) else y.get("n", "") for y in r.get("bases", [])]
            return names
    return None


def common_call(f, par, c, t):
    """the innermost call or constructor of which c and t are (in) different arguments"""
    ca = {}
    x, prev = c, None
    while x is not None:
        ca[x] = prev
        prev, x = x, par.get(x)
    x, prev = t, None
    while x is not None:
        if x in ca:
            if f.N[x]["k"] in ("Call", "Ctor") and ca[x] is not None and prev is not None and ca[x] != prev:
                return x
            if f.N[x]["k"] in ("Call", "Ctor") and ca[x] is None:
                return x
            return None
        prev, x = x, par.get(x)
    return None


def same_pass(f, par, c, t, r):
    """t comes after c within one pass of the loop whose variable r is: by source order within the loop body"""
    pc, pt = path._pos(f, c), path._pos(f, t)
    if pc is None or pt is None:
        return False
    if pc[0] == pt[0]:
        return pt[1] > pc[1]
    lc, lt = lineof(f, c), lineof(f, t)
    return lt > lc


def lineof(f, i):
    try:
        return int(f.loc(i).rsplit(":", 1)[-1])
    except ValueError:
        return 0


def infeasible(f, par, i, t):
    """move and use lie under opposite branches of the same unchanged condition"""
    def conds(x):
        out = {}
        c, p = x, par.get(x)
        while p is not None:
            n = f.N[p]
            if n["k"] == "If":
                if n.get("then") == c:
                    out[pp.ex(f, n["cond"])] = True
                elif n.get("else") == c:
                    out[pp.ex(f, n["cond"])] = False
            c, p = p, par.get(p)
        return out
    a, b = conds(i), conds(t)
    for k in a:
        if k in b and a[k] != b[k]:
            return True
        for neg in ("!" + k, "!(" + k + ")"):
            if neg in b and b[neg] == a[k]:
                return True
        if k.startswith("!") and k[1:] in b and b[k[1:]] == a[k]:
            return True
    return False
