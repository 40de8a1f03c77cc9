"""C08: stored hashes always belong to the stored word."""
import ir, core, dep, pp, path
from c07_sign import WORDS, bare, word_args

RULE = ("hash provenance: for every construction, copy and in-place change of an operator word the stored hash is traced to the operators it was computed from, "
        "which must be the stored operators in their final form; order of evaluation, moves and later changes are followed on the control flow graph")
TECHNIQUE = "provenance analysis of hash arguments over canonical expressions, with path search for moves and changes between hashing and storing"
LEVEL = "other"
OWN = ("Moment::HashedSequence::", "Moment::OperatorSequence::")
EMPLACE = ("emplace_back", "make_optional", "emplace", "construct_at", "make_unique", "make_shared")


def own_field(f, m, name):
    """is member access m the named field of a word"""
    if m["k"] != "Mem" or m["n"].rsplit("::", 1)[-1] != name:
        return False
    t = f.ty(m["c"][0]) if m.get("c") else ""
    return bare(t.replace("*", " ")) in WORDS


def is_ops(t):
    return "SmallVector<short" in t or "sequence_storage_t" in t


def hashed_object(t):
    """the operator list a hash term was computed from: term, or None if t is no hash term"""
    if t[0] == "call" and isinstance(t[1], str) and t[1].rsplit("::", 1)[-1] in ("hash", "operator()") and len(t) > 3:
        return unspan(t[3])
    if t[0] == "." and t[2] == "the_hash":
        return (".", t[1], "operators")
    return None


def unspan(t):
    while True:
        if t[0] == "new" and isinstance(t[1], str) and "span" in t[1] and len(t) >= 3:
            t = t[2]
        elif t[0] == "." and t[2] in ("data_start", "_size"):
            t = t[1]
        elif t[0] == "call" and isinstance(t[1], str) and t[1].rsplit("::", 1)[-1] in ("begin", "data", "cbegin") and len(t) > 2 and isinstance(t[2], tuple):
            t = t[2]
        elif t[0] == "new" and isinstance(t[1], str) and t[1].endswith("SmallVector") and len(t) == 3 and t[2][0] in ("v", ".", "elem", "idx"):
            t = t[2]
        else:
            return t


def lin(t):
    """integer linear form {atom: k}"""
    if t[0] == "int":
        return {None: t[1]} if t[1] else {}
    if t[0] == "op" and t[1] in "+-" and len(t) == 4:
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == "+" else -1
        r = dict(a)
        for x, k in b.items():
            r[x] = r.get(x, 0) + s * k
            if not r[x]:
                del r[x]
        return r
    if t[0] == "op" and t[1] == "*" and len(t) == 4 and t[2][0] == "int":
        return {x: k * t[2][1] for x, k in lin(t[3]).items()}
    return {t: 1}


def single(o):
    """the only operator of a literal one-operator list"""
    if o[0] == "new" and isinstance(o[1], str) and o[1].endswith("SmallVector") and len(o) == 3:
        x = o[2]
        if x[0] == "list":
            x = x[2] if len(x) == 3 else None
        return x
    return None


def literal_ops(o):
    if o[0] == "new" and isinstance(o[1], str) and o[1].endswith("SmallVector"):
        if len(o) == 2:
            return []
        if len(o) == 3 and o[2][0] == "list":
            return list(o[2][2:])
    return None


def judge(o, h):
    """True / False (with reason) / None if not understood"""
    if h[0] == "?:":
        a, b = judge(o, h[2]), judge(o, h[3])
        for x, y in ((h[2], b), (h[3], a)):
            if x == ("int", 0):
                return y
        return a if a == b else (False if False in (a, b) else None)
    y = hashed_object(h)
    if y is not None:
        if y == o or unspan(o) == y:
            return True
        lo, ly = literal_ops(o), literal_ops(y) if y[0] == "new" else (list(y[2:]) if y[0] == "list" else None)
        if lo is not None and ly is not None:
            return lo == ly
        if single(o) is not None and y == single(o):
            return True
        return False
    s = single(o)
    if s is not None:
        d = lin(("op", "-", h, s))
        rest = [x for x in d if x is not None]
        if not rest:
            return d.get(None) == 2
        if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == "." and rest[0][2] == "offset" and d[rest[0]] == 1:
            return d.get(None) == 1
        return False if h[0] in ("int", "op") else None
    d = lin(h)
    rest = [x for x in d if x is not None]
    if h[0] == "op" and any(isinstance(x, tuple) and x[0] == "." and x[2] == "offset" for x in rest):
        return False                # hash of one operator for a list that is not one operator
    if h == ("int", 1):
        return literal_ops(o) == []
    if h == ("int", 0):
        return literal_ops(o) == []
    if h[0] == "int":
        return False
    return None


def sites(prog):
    for f in prog.live():
        if f.body < 0 and not f.get("inits") or f.name.startswith("std::"):
            continue
        for i in f.all_nodes():
            n = f.N[i]
            k = n["k"]
            if k == "Ctor" and n.get("cls") in WORDS and n.get("sp") not in ("copy", "move"):
                yield f, i
            elif k == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in EMPLACE:
                et = f.ty(n["o"]) if n.get("o", -1) >= 0 else f.ty(i)
                if any(("<" + w) in et for w in WORDS):
                    yield f, i


def strip(f, i):
    while True:
        n = f.N[i]
        if n["k"] in ("Cast", "DefArg", "DefInit") and n.get("c"):
            i = n["c"][0]
        elif n["k"] == "InitList" and len(n.get("c", [])) == 1:
            i = n["c"][0]
        else:
            return i


def resolve(f, cn, h, depth=0):
    """(term, evaluation node) alternatives for a hash argument, following local variables"""
    i = strip(f, h)
    n = f.N[i]
    if n["k"] == "Ref" and n.get("dk") in ("local", "bind") and depth < 5:
        v = n["v"]
        vi = core.varinfo(f).get(v)
        out = []
        if vi and vi.decl is not None and vi.init is not None and vi.kind != "bind":
            out += [(t, vi.decl if e is None else e) for t, e in resolve(f, cn, vi.init, depth + 1)]
        for m in (vi.muts if vi else ()):
            a = f.N[m]
            if a["k"] == "Assign" and a.get("op") == "=":
                out += [(t, m if e is None else e) for t, e in resolve(f, cn, a["c"][1], depth + 1)]
            elif a["k"] in ("Assign", "Un"):
                out.append((cn(i), m))
        if out:
            return out
    if n["k"] == "Cond":
        c = n["c"]
        return resolve(f, cn, c[1], depth + 1) + resolve(f, cn, c[2], depth + 1)
    return [(cn(i), None)]


def root(t):
    while t and t[0] in (".", "idx", "elem", "ok", "*") and isinstance(t[1], tuple):
        t = t[1]
    return t[1] if t and t[0] == "v" else None


def given_hashes(prog, rep):
    for f, i in sites(prog):
        n = f.N[i]
        ops, sign, flag = word_args(f, n)
        if ops is None:
            continue
        hs = [x for x in n.get("a", []) if core.is_int_type(f.ty(x)) and bare(f.ty(x)) != "bool"]
        if not hs:
            continue
        h = hs[0]
        cn = core.Canon(f)
        if f.get("ctor") and all(f.N[strip(f, x)]["k"] == "Ref" and f.N[strip(f, x)].get("dk") == "parm" for x in (h,)) and (f.name.startswith(OWN)):
            rep.ok("word-hash", "%s: operators and hash both passed on" % f.short, f.loc(i))
            continue
        o = cn(ops)
        key = "%s: %s" % (f.short, pp.ex(f, ops)[:60])
        for t, e in resolve(f, cn, h):
            if t == ("int", 0) and literal_ops(o) == [] and sign is not None and f.N[sign]["k"] != "DefArg" and cn(sign) != ("enum", "Moment::SequenceSignType::Positive"):
                rep.bad("word-hash", key, f.loc(i), "%s gives an empty word with a phase the hash of zero" % f.short)
                continue
            if t == ("int", 0) and literal_ops(o) != []:
                # zero words: the caller marks them so by the hash; only inside a choice
                if e is not None or f.N[strip(f, h)]["k"] == "Cond":
                    continue
            j = judge(o, t)
            if j is None:
                y = dep_mentions(f, cn, h, o)
                if y:
                    rep.note("%s: hash %s is computed from the stored operators in a way not understood" % (f.loc(i), pp.ex(f, h)[:60]))
                    continue
                if t[0] == "v" and any(p["v"] == t[1] for p in f.params):
                    rep.note("%s: hash is a parameter" % f.loc(i))
                    continue
                j = False
            if not j:
                rep.bad("word-hash", key, f.loc(i), "%s stores operators %s with the hash %s, which is not the hash of those operators" % (f.short, pp.ex(f, ops)[:60], pp.ex(f, h)[:60]))
                continue
            w = stale(f, i, ops, h, e, o)
            rep.add(w is None, "word-hash", key, f.loc(i), "%s: %s" % (f.short, w))
            same_context(f, cn, i, n, t, rep)


def dep_mentions(f, cn, h, o):
    r = root(o)
    for g, c, x in dep.closure(f, h, cn):
        m = g.N[x]
        if r is not None and m["k"] == "Ref" and m.get("v") == r:
            return True
        if r is None and m["k"] in ("Mem", "Call") and c(x) == o:
            return True
    return False


def by_value_move(f, i, v):
    """child nodes of construction i that really move variable v (into a by-value parameter)"""
    out = []
    for k, a in enumerate(f.N[i].get("a", [])):
        x = strip(f, a)
        m = f.N[x]
        if m["k"] == "Ctor" and is_ops(m.get("cls", "") + f.ty(x)) and m.get("sp") == "move" and any(f.N[y]["k"] == "Ref" and f.N[y].get("v") == v for y in f.walk(x)):
            out.append((k, x))
    return out


def stale(f, i, ops, h, e, o):
    """is the hash taken of other contents than those stored; reason or None"""
    v = root(o)
    if v is None or not f.cfg:
        return None
    at = e if e is not None else h
    inside = set(f.walk(i))
    vi = core.varinfo(f).get(v)
    if e is None:
        mv = by_value_move(f, i, v)
        hk = [k for k, a in enumerate(f.N[i].get("a", [])) if a == h or h in set(f.walk(a))]
        hashes_v = any(f.N[y]["k"] == "Ref" and f.N[y].get("v") == v for y in f.walk(h))
        if mv and hk and hashes_v:
            if not f.N[i].get("brace") or mv[0][0] < hk[0]:
                return "the operators are moved away before their hash is calculated (order of the arguments)"
    if vi:
        for m in list(vi.muts) + iterator_writes(f, v):
            if m in inside or m in set(f.walk(at)):
                continue
            if path.reach(f, at, m) and path.reach(f, m, i, avoid=[at]):
                return "the operators are changed at line %s after their hash was calculated" % f.loc(m).rsplit(":", 1)[-1]
    return None


WRITERS = ("sort", "stable_sort", "reverse", "swap", "iter_swap", "rotate", "transform", "copy", "copy_n", "move", "fill", "replace", "remove", "unique", "iota", "back_inserter", "generate")


def iterator_writes(f, v):
    """standard algorithms given changeable iterators of v"""
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("fn", "").startswith("std::") and n["fn"].rsplit("::", 1)[-1] in WRITERS and n.get("a"):
            for a in n["a"]:
                for y in f.walk(a):
                    m = f.N[y]
                    if m["k"] == "Call" and m.get("fn", "").rsplit("::", 1)[-1] in ("begin", "end", "data", "rbegin") and m.get("o", -1) >= 0 and not m.get("mconst") and any(f.N[z]["k"] == "Ref" and f.N[z].get("v") == v for z in f.walk(m["o"])):
                        out.append(i)
    return out


def same_context(f, cn, i, n, t, rep):
    if t[0] != "call":
        return
    hasher = t[2]
    ctx = [x for x in n["a"] if bare(f.ty(x)).startswith("Moment::") and bare(f.ty(x)).endswith("Context") or bare(f.ty(x)) == "Moment::Context"]
    if not ctx or hasher[0] != "." or hasher[2] != "hasher":
        return
    c = cn(ctx[0])
    a, b = hasher[1], c
    while a and a[0] in ("*", "ok"):
        a = a[1]
    while b and b[0] in ("*", "ok"):
        b = b[1]
    if a == b:
        rep.ok("hash-context", "%s: %s" % (f.short, pp.ex(f, ctx[0])[:40]), f.loc(i))
    elif a[0] in ("v", "this") and b[0] in ("v", "this"):
        rep.bad("hash-context", "%s: %s" % (f.short, pp.ex(f, ctx[0])[:40]), f.loc(i), "%s hashes with one context and attaches the word to another" % f.short)
    else:
        rep.note("%s: hasher of %s, context %s" % (f.loc(i), a, b))


def copying(f):
    return len(f.params) == 1 and bare(f.T[f.params[0]["t"]]) in WORDS


def hasher_ctor(prog, rep):
    """constructors of the words themselves: the hash field, the order of initialisers"""
    for f in prog.live():
        if not f.get("ctor") or not f.name.startswith(OWN) or copying(f):
            continue
        ini = {}
        for x in f.get("inits", []):
            if x.get("fd"):
                ini[x["fd"].rsplit("::", 1)[-1]] = x["i"]
        cls = prog.R.get(f.name.rsplit("::", 1)[0])
        if "the_hash" in ini and "operators" in ini:
            h, o = ini["the_hash"], ini["operators"]
            cn = core.Canon(f)
            ops = cn(o)
            src = unspan(ops[2]) if ops[0] == "new" and len(ops) == 3 else ops
            t = cn(strip(f, h))
            y = hashed_object(t)
            key = "%s: %s" % (f.short, ",".join(p["n"] for p in f.params))
            if y is None:
                continue
            order = [x["n"].rsplit("::", 1)[-1] for x in cls.get("fields", [])] if cls else []
            good = y == src or y == (".", ("this",), "operators")
            rep.add(good, "constructor-hash", key, f.loc(), "%s computes the hash from something else than the operators it stores" % f.short)
            if good and order and "the_hash" in order and "operators" in order:
                first = order.index("the_hash") < order.index("operators")
                moved = any(f.N[x]["k"] == "Call" and f.N[x].get("fn") == "std::move" for x in f.walk(o)) or any(f.N[x]["k"] == "Ctor" and f.N[x].get("sp") == "move" for x in f.walk(o))
                if y == src and moved:
                    rep.add(first, "constructor-hash", key + " (order)", f.loc(), "%s: members are initialised in declaration order, so the operators are moved before they are hashed" % f.short)
                elif y != src:
                    rep.add(not first, "constructor-hash", key + " (order)", f.loc(), "%s: the hash is calculated from the member before that member is initialised" % f.short)


# ---- in-place changes --------------------------------------------------------------------------------------------------
MUT_METH = {"push_back", "emplace_back", "insert", "erase", "clear", "resize", "assign", "pop_back", "swap", "operator=", "append", "emplace"}


def word_of_ops(f, cn, i):
    """canonical word whose operator list node i denotes as a changeable lvalue"""
    i = strip(f, i)
    n = f.N[i]
    if own_field(f, n, "operators"):
        return cn(n["c"][0]) if n.get("c") else ("this",), (n["c"][0] if n.get("c") else None)
    if n["k"] == "Call" and n.get("fn") == "Moment::HashedSequence::raw" and n.get("o", -1) >= 0 and not n.get("mconst"):
        return cn(n["o"]), n["o"]
    if n["k"] == "Ref" and n.get("dk") == "local":
        vi = core.varinfo(f).get(n["v"])
        if vi and vi.init is not None and core.is_ref(vi.t) and not vi.t.startswith("const"):
            return word_of_ops(f, cn, vi.init)
    return None


def changes(f, cn):
    """(node, word term, word node) of every change to a word's operator list"""
    for i in f.all_nodes():
        n = f.N[i]
        k = n["k"]
        if k == "Assign":
            x = n["c"][0]
            y = strip(f, x)
            m = f.N[y]
            if m["k"] == "Sub" or m["k"] == "Call" and m.get("op") == "[]":
                b = m["c"][0] if m["k"] == "Sub" else (m["o"] if m.get("o", -1) >= 0 else m["a"][0])
                r = word_of_ops(f, cn, b)
                if r:
                    yield i, r
                continue
            if m["k"] == "Un" and m["op"] == "*":
                continue
            r = word_of_ops(f, cn, x)
            if r:
                yield i, r
        elif k == "Call":
            o = n.get("o", -1)
            last = n.get("fn", "").rsplit("::", 1)[-1]
            if o >= 0 and (last in MUT_METH or n.get("op") == "="):
                r = word_of_ops(f, cn, o)
                if r:
                    yield i, r
            for j, a in enumerate(n.get("a", [])):
                pm = n.get("pm", "")
                if (pm[j] if j < len(pm) else "v") == "m" and is_ops(f.ty(a)):
                    r = word_of_ops(f, cn, a)
                    if r:
                        yield i, r
            if n.get("fn", "").startswith("std::") and last in WRITERS:
                for a in n.get("a", []):
                    for y in f.walk(a):
                        m = f.N[y]
                        if m["k"] == "Call" and m.get("fn", "").rsplit("::", 1)[-1] in ("begin", "end", "data", "rbegin") and m.get("o", -1) >= 0 and not m.get("mconst"):
                            r = word_of_ops(f, cn, m["o"])
                            if r:
                                yield i, r


def fixes(f, cn, w, fixers):
    """nodes after which word w's hash again belongs to its operators"""
    out = []
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call" and n.get("o", -1) >= 0 and (n.get("fn", "") in fixers) and cn(n["o"]) == w:
            out.append(i)
        elif n["k"] == "Call" and n.get("fn", "") in fixers and n.get("o", -1) < 0 and w == ("this",) and not n.get("a"):
            out.append(i)
        elif n["k"] == "Assign" and n.get("op") == "=":
            x = strip(f, n["c"][0])
            m = f.N[x]
            if own_field(f, m, "the_hash") and (cn(m["c"][0]) if m.get("c") else ("this",)) == w:
                out.append(i)
            elif cn(x) == w:
                out.append(i)
        elif n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0 and cn(n["o"]) == w:
            out.append(i)
    return out


def unchanged_edges(f, cn, node):
    """edge filter: drop edges on which the change at `node` reported 'nothing changed'"""
    try:
        facts = core.Facts(f, cn)
    except Exception:
        return None
    want = cn(node)

    def ok(p, x):
        for idx, s in enumerate(f.cfg.b[p]["s"]):
            if s != x:
                continue
            lits = facts.edge(p, idx, s, facts.IN.get(p) or frozenset())
            if lits is None:
                return False
            for l, pol in lits:
                if pol and no_change(l, want):
                    return False
            if excluded(f, lits):
                return False
        return True
    return ok


def excluded(f, lits):
    """all enumerators but 'no match' ruled out"""
    no = {}
    for l, pol in lits:
        if not pol and l[0] == "eq":
            for a, b in ((l[1], l[2]), (l[2], l[1])):
                if b[0] == "enum":
                    no.setdefault(a, set()).add(str(b[1]))
    for a, es in no.items():
        en = f.prog.E.get(next(iter(es)).rsplit("::", 1)[0])
        if en:
            names = {x[0] for x in en["e"]}
            if "NoMatch" in names and names - {e.rsplit("::", 1)[-1] for e in es} <= {"NoMatch"}:
                return True
    return False


def no_change(l, want):
    # ("eq", result, NoMatch) or a plain false result
    if l[0] == "eq":
        for a, b in ((l[1], l[2]), (l[2], l[1])):
            if b[0] == "enum" and str(b[1]).endswith("NoMatch"):
                return True
    return False


def in_place(prog, rep):
    fixers = {"Moment::HashedSequence::rehash", "Moment::HashedSequence::set_to_zero"}
    meths = [f for f in prog.live() if f.name.startswith(OWN) and f.body >= 0 and not f.get("ctor") and f.cfg]
    for _ in range(4):
        for f in meths:
            if f.name in fixers or f.get("const"):
                continue
            cn = core.Canon(f)
            ev = fixes(f, cn, ("this",), fixers)
            if ev and not path.escape(f, ev):
                fixers.add(f.name)
    for f in prog.live():
        if f.body < 0 or f.name.startswith("std::") or not f.cfg:
            continue
        if f.get("sp") in ("copy", "move") or f.get("defaulted"):
            continue
        cn = None
        if not any(own_field(f, f.N[i], "operators") or f.N[i]["k"] == "Call" and f.N[i].get("fn") == "Moment::HashedSequence::raw" for i in f.all_nodes()):
            continue
        cn = core.Canon(f)
        for i, (w, node) in changes(f, cn):
            if f.name.rsplit("::", 1)[-1] == "operator=" and f.name.startswith(OWN):
                continue
            ev = fixes(f, cn, w, fixers - {f.name})
            r = path.after(f, i, ev, edge_ok=unchanged_edges(f, cn, i))
            if not r and ev and clears(f, i) and hash_zero_or_one_before(f, cn, i, ev):
                r = True
            rep.add(r, "rehash", "%s: %s" % (f.short, pp.ex(f, i)[:60]), f.loc(i), "%s changes a word's operators and can end without renewing its hash" % f.short)
    for f in meths:
        assigned_all(f, rep)


def clears(f, i):
    return f.N[i]["k"] == "Call" and f.N[i].get("fn", "").rsplit("::", 1)[-1] == "clear"


def hash_zero_or_one_before(f, cn, i, ev):
    """clear() after the hash was set to the constant of the empty word on every path"""
    const = [e for e in ev if f.N[e]["k"] == "Assign" and cn(f.N[e]["c"][1]) in (("int", 0), ("int", 1))]
    return bool(const) and path.before(f, i, const)


def assigned_all(f, rep):
    """every assignment to the_hash stores the hash of the same object's operators"""
    cn = core.Canon(f)
    if f.name.rsplit("::", 1)[-1] == "operator=":
        return
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Assign" or n.get("op") != "=":
            continue
        m = f.N[strip(f, n["c"][0])]
        if not own_field(f, m, "the_hash"):
            continue
        w = cn(m["c"][0]) if m.get("c") else ("this",)
        key = "%s: %s" % (f.short, pp.ex(f, i)[:50])
        for t, e in resolve(f, cn, n["c"][1]):
            if t == ("int", 0) or t == ("int", 1):
                # the empty word: operators cleared before or after on every path, or built empty here
                cl = [x for x in f.all_nodes() if clears(f, x) and f.N[x].get("o", -1) >= 0 and (word_of_ops(f, cn, f.N[x]["o"]) or (None,))[0] == w]
                fresh = w[0] == "v" and any(f.N[x]["k"] == "Ctor" and f.N[x].get("cls") in WORDS and word_args(f, f.N[x])[0] is None and f.N[x].get("sp") not in ("copy", "move") for x in dep_init(f, w[1]))
                good = fresh or path.before(f, i, cl) or path.after(f, i, cl)
                rep.add(good, "zero-hash", key, f.loc(i), "%s marks a word as zero or identity without emptying its operators" % f.short)
                continue
            if t[0] == "v" and any(p["v"] == t[1] for p in f.params):
                rep.ok("assigned-hash", key, f.loc(i), "hash given by the caller")
                continue
            y = hashed_object(t)
            if y is None and t[0] == "call" and isinstance(t[1], str) and t[1].endswith("::hash") and len(t) > 3:
                y = t[3]
            if y is None and t[0] == "?:" :
                ys = [hashed_object(x) for x in t[2:4] if x != ("int", 0)]
                y = ys[0] if len(ys) == 1 else None
            if y is None:
                rep.note("%s: assigned hash %s not understood" % (f.loc(i), str(t)[:80]))
                continue
            good = y in (w, (".", w, "operators"), ("*", w))
            rep.add(good, "assigned-hash", key, f.loc(i), "%s stores a hash that was not computed from this word's operators" % f.short)
            # and the operators are final: no change after it (other than followed by another hash)


def dep_init(f, v):
    vi = core.varinfo(f).get(v)
    return list(f.walk(vi.init)) if vi and vi.init is not None else []


def rehash_callers(prog, rep):
    """rehash(value): the value is the hash of that word"""
    for f in prog.live():
        if f.body < 0:
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("fn") == "Moment::HashedSequence::rehash" and n.get("o", -1) >= 0 and n.get("a") and core.is_int_type(f.ty(n["a"][0])):
                cn = core.Canon(f)
                w = cn(n["o"])
                for t, e in resolve(f, cn, n["a"][0]):
                    y = hashed_object(t)
                    rep.add(y in (w, (".", w, "operators")), "assigned-hash", "%s: %s" % (f.short, pp.ex(f, i)[:50]), f.loc(i), "%s gives a word a hash that was not computed from its operators" % f.short)


# ---- objects that keep the hash of a word they hold ---------------------------------------------------------------------
def kept(prog, rep):
    for f in prog.live():
        if not f.get("ctor") or f.get("sp"):
            continue
        cls = prog.R.get(f.name.rsplit("::", 1)[0])
        if cls is None or f.name.startswith(OWN):
            continue
        flds = {x["n"].rsplit("::", 1)[-1]: x for x in cls.get("fields", [])}
        order = [x["n"].rsplit("::", 1)[-1] for x in cls.get("fields", [])]
        for x in f.get("inits", []):
            if not x.get("fd"):
                continue
            nm = x["fd"].rsplit("::", 1)[-1]
            cn = core.Canon(f)
            t = cn(strip(f, x["i"]))
            if t[0] != "." or t[2] != "the_hash" or nm not in flds:
                continue
            key = "%s: %s" % (f.short, nm)
            w = t[1]
            if w[0] == "." and w[1] == ("this",) and w[2] in order:
                rep.add(order.index(w[2]) < order.index(nm), "kept-hash", key, f.loc(), "%s: the hash is read from member %s before that member is initialised" % (f.short, w[2]))
            elif w[0] == "v":
                moved = [fd for y in f.get("inits", []) for fd in [(y.get("fd") or "").rsplit("::", 1)[-1]] if fd in order and order.index(fd) < order.index(nm)
                         and any(f.N[z]["k"] == "Ctor" and f.N[z].get("sp") == "move" and any(f.N[q]["k"] == "Ref" and f.N[q].get("v") == w[1] for q in f.walk(z)) for z in f.walk(y["i"]))]
                rep.add(not moved, "kept-hash", key, f.loc(), "%s: the hash is read from a word that has already been moved away" % f.short)
                holds = any(any(f.N[q]["k"] == "Ref" and f.N[q].get("v") == w[1] for q in f.walk(y["i"])) for y in f.get("inits", []) if y is not x)
                rep.add(holds, "kept-hash", key + " (same word)", f.loc(), "%s keeps the hash of a word it does not hold" % f.short)


def check(prog, rep, tier):
    given_hashes(prog, rep)
    hasher_ctor(prog, rep)
    base_ctor(prog, rep)
    in_place(prog, rep)
    rehash_callers(prog, rep)
    kept(prog, rep)
    hash_function(prog, rep)


def base_ctor(prog, rep):
    """words built from operators and a hasher or context: which hasher"""
    for f, i in sites(prog):
        n = f.N[i]
        if n["k"] != "Ctor" or n.get("cls") != "Moment::HashedSequence":
            continue
        ops, sign, flag = word_args(f, n)
        hs = [x for x in n.get("a", []) if bare(f.ty(x)) == "Moment::ShortlexHasher"]
        if ops is None or not hs:
            continue
        cn = core.Canon(f)
        t = cn(hs[0])
        key = "%s: %s" % (f.short, pp.ex(f, hs[0])[:40])
        if f.get("ctor") and f.name.startswith(OWN):
            own = next((cn(x["i"]) for x in f.get("inits", []) if (x.get("fd") or "").endswith("::context")), None)
            a = t[1] if t[0] == "." else None
            while own and own[0] in ("&", "*", "addr", "un") and isinstance(own[-1], tuple):
                own = own[-1]
            if own is None or a is None:
                rep.note("%s: hasher %s" % (f.loc(i), t))
                continue
            rep.add(a == own, "hash-context", key, f.loc(i), "%s hashes with a hasher that is not its own context's" % f.short)
        else:
            rep.ok("hash-context", key, f.loc(i), "hasher of the rule book's own precontext" )


WITNESS = r'''
#include "shortlex_hasher.h"
#include <span>
namespace {
using namespace Moment;
constexpr bool shortlex(hash_t radix) {
    const ShortlexHasher h{radix};
    oper_name_t w[3] = {0, 0, 0};
    hash_t expect = h.offset;
    const auto r = static_cast<oper_name_t>(radix);
    if (h.hash(std::span<const oper_name_t>(w, 0)) != expect) return false;
    for (oper_name_t a = 0; a < r; ++a) { w[0] = a; ++expect; if (h.hash(std::span<const oper_name_t>(w, 1)) != expect) return false; }
    for (oper_name_t a = 0; a < r; ++a) for (oper_name_t b = 0; b < r; ++b) { w[0] = a; w[1] = b; ++expect; if (h.hash(std::span<const oper_name_t>(w, 2)) != expect) return false; }
    for (oper_name_t a = 0; a < r; ++a) for (oper_name_t b = 0; b < r; ++b) for (oper_name_t c = 0; c < r; ++c) {
        w[0] = a; w[1] = b; w[2] = c; ++expect; if (h.hash(std::span<const oper_name_t>(w, 3)) != expect) return false; }
    return true;
}
constexpr bool one(hash_t radix) {
    const ShortlexHasher h{radix};
    for (oper_name_t a = 0; a < 40; ++a) { oper_name_t w[1] = {a}; if (h.hash(std::span<const oper_name_t>(w, 1)) != h.hash(a)) return false; }
    return true;
}
static_assert(shortlex(1) && shortlex(2) && shortlex(5), "words get consecutive hashes in shortlex order");
static_assert(one(1) && one(3) && one(40), "the short cut for one operator agrees with the general hash");
static_assert(ShortlexHasher{2}.offset == 1, "the identity has hash one, so that no word has hash zero");
}
'''


def hash_function(prog, rep):
    import witness
    witness.obligations(rep, "hash-function", "ShortlexHasher", "cpp/lib_moment/shortlex_hasher.h", WITNESS,
                        ["words get consecutive hashes in shortlex order", "the short cut for one operator agrees with the general hash", "the identity has hash one, so that no word has hash zero"],
                        "the hash function breaks: %s")
