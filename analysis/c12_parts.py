"""C12: copies, moves, swaps and equality account for every part of a value."""
import re
import effects, core, moved, order, path, pp
import c16_order as c16

RULE = ("every hand-written copy or move operation, swap and clone carries each field over from the same field of its source; classes that hold a view of their own storage do not leave copying it to the "
        "compiler; every operator == reads the same keys from both sides, reads every distinguishing field, is reflexive and symmetric, and operator != is its exact negation; "
        "no value is read after it has been given away by std::move")
TECHNIQUE = "field-transfer obligations over the class model and the typed syntax tree; abstract interpretation of equality operators over a finite order domain; use-after-move path search on the control flow graph"
LEVEL = "bounded_exhaustive"

MUTEX = re.compile(r"mutex|atomic|once_flag|condition_variable")
VIEW = re.compile(r"^std::(span|basic_string_view|reference_wrapper)|__normal_iterator")


OWNER = re.compile(r"std::(unique_ptr|shared_ptr|vector|basic_string|string|map|set|optional|deque)\b")


def lib(f):
    return f.rel.startswith("cpp/lib_moment") and not f.get("dep") and f.body is not None


def rec(prog, cls):
    r = prog.R.get(cls)
    if r is not None:
        return r
    return None


def rec_of(prog, f, t=None):
    """record of a member function's class, by the type of its `other` parameter when the class is a template"""
    if t is not None:
        r = prog.R.get(core.strip_cv(t).rstrip("& "))
        if r is not None:
            return r
    return prog.R.get(f.get("cls"))


def own_storage(f, i):
    """the expression is an address or view of this object itself or of storage it owns"""
    for j in f.walk(i):
        n = f.N[j]
        if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("data", "get", "begin") and n.get("o") is not None and n.get("o", -1) >= 0:
            r, fl, p = core.lval_root(f, n["o"])
            if r == "this" and fl:
                return True
        if n["k"] == "Un" and n["op"] == "&":
            r, fl, p = core.lval_root(f, n["c"][0])
            if r == "this" and fl:
                return True
        if n["k"] == "Un" and n["op"] == "*" and f.N[n["c"][0]]["k"] == "This":
            p = f.parents().get(j)
            while p is not None and f.N[p]["k"] in ("Cast", "Paren"):
                p = f.parents().get(p)
            if p is None or f.N[p]["k"] in ("Ctor", "InitList"):
                return True
    return False


def self_views(prog):
    """{class: {field}} of fields set up as a view of the object itself"""
    out = {}
    for f in prog.live():
        if not f.rel.startswith("cpp/lib_moment") or f.get("dep") or not f.get("ctor"):
            continue
        for x in f.get("inits", []) or []:
            if x.get("fd") and x.get("i", -1) is not None and x.get("i", -1) >= 0:
                fd = x["fd"].rsplit("::", 1)[-1]
                r = prog.R.get(full_cls(prog, f))
                rs = [r] if r is not None else [z for z in prog.rec.get(re.sub(r"<.*", "", full_cls(prog, f) or ""), []) if not z.get("dep")]
                t = next((y for z in rs for y in z.get("fields", []) if y["n"] == fd and viewish(prog, y)), None)
                if t is None:
                    continue
                if own_storage(f, x["i"]):
                    out.setdefault(full_cls(prog, f), set()).add(fd)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Assign":
                rt, fl, p = core.lval_root(f, n["c"][0])
                if rt == "this" and len(fl) == 1 and own_storage(f, n["c"][1]):
                    rs = [z for z in prog.rec.get(re.sub(r"<.*", "", full_cls(prog, f) or ""), []) if not z.get("dep")]
                    if any(y["n"] == fl[0] and viewish(prog, y) for z in rs for y in z.get("fields", [])):
                        out.setdefault(full_cls(prog, f), set()).add(fl[0])
    return out


def full_cls(prog, f):
    t = f.get("thist") or f.get("cls")
    if t in prog.R:
        return t
    return f.get("cls")


def viewish(prog, y):
    t = core.strip_cv(y["t"])
    if y.get("ref") or core.is_ptr(t) or VIEW.search(t):
        return True
    r = prog.R.get(t)
    return r is not None and any(z.get("ref") or core.is_ptr(core.strip_cv(z["t"])) for z in r.get("fields", []))


def self_view_rule(prog, rep):
    seen = {}
    for cls, fds in self_views(prog).items():
        r = prog.R.get(cls)
        cands = [r] if r is not None else []
        for nm, rr in prog.R.items():
            if not nm.startswith("T:") and re.sub(r"<.*", "", nm) == re.sub(r"<.*", "", cls) and all(any(y["n"] == fd for y in rr.get("fields", [])) for fd in fds):
                cands.append(rr)
        for rr in cands[:3]:
            name = re.sub(r"<.*", "", rr["name"])
            for m in rr.get("methods", []):
                what = m.get("ctor") if m.get("ctor") in ("copy", "move") else m.get("asg")
                if not what:
                    continue
                key = "%s|%s|%s" % (name, "ctor" if m.get("ctor") else "assign", what)
                bad = bool(m.get("dflt")) and not m.get("del")
                if key in seen:
                    continue
                seen[key] = 1
                rep.add(not bad, "self-view", key, "%s:%s" % (rr["file"], rr["line"]), "" if not bad else
                        "%s holds a view of its own storage (`%s`), but its %s %s is left to the compiler: the result looks into the source" % (name, "`, `".join(sorted(fds)), what, "constructor" if m.get("ctor") else "assignment"))


# --------------------------------------------------------------------------- copy and move operations
def refers(f, i, root, field):
    """the expression mentions root.field (or an accessor of that name)"""
    for j in f.walk(i):
        n = f.N[j]
        if n["k"] == "Mem" and n["n"] == field and n.get("c"):
            r, fl, p = core.lval_root(f, n["c"][0])
            if r == root and not fl:
                return True
    return False


def is_field(f, i, root):
    """(field) when the expression is exactly root.field (through casts, move, copies)"""
    x = i
    for _ in range(12):
        n = f.N[x]
        if n["k"] in ("Cast", "Paren", "Temp", "Implicit") and f.kids(x):
            x = f.kids(x)[0]
        elif n["k"] == "Call" and n.get("fn") in ("std::move", "std::forward", "std::exchange", "std::as_const") and n.get("a"):
            x = n["a"][0]
        elif n["k"] in ("Ctor", "InitList") and len(n.get("a", n.get("c", []))) == 1:
            x = (n.get("a") or n["c"])[0]
        else:
            break
    n = f.N[x]
    if n["k"] == "Mem" and n.get("c"):
        r, fl, p = core.lval_root(f, n["c"][0])
        if r == root and not fl:
            return n["n"]
    return None


def whole_src(f, src):
    """the source object is handed over as a whole, or *this = src"""
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Call":
            for a in list(n.get("a", [])):
                x = a
                while f.N[x]["k"] in ("Cast", "Paren", "Temp") and f.kids(x):
                    x = f.kids(x)[0]
                m = f.N[x]
                if m["k"] == "Call" and m.get("fn") in ("std::move", "std::forward") and m.get("a"):
                    x = m["a"][0]
                    m = f.N[x]
                if m["k"] == "Ref" and m.get("v") == src and n.get("fn") not in ("std::move", "std::forward", "std::addressof"):
                    o = n.get("o", -1)
                    if (o is not None and o >= 0 and core.lval_root(f, o)[0] == "this") or (n.get("f") and o is None) or n.get("fn", "").rsplit("::", 1)[-1] in ("swap",):
                        return n.get("fn", "")
    return None


def transfers(prog, f, r, src, rep, kind):
    fields = [y for y in r.get("fields", []) if not MUTEX.search(y["t"])]
    inits = {x["fd"].rsplit("::", 1)[-1]: x for x in (f.get("inits") or []) if x.get("fd")}
    deleg = [x for x in (f.get("inits") or []) if x.get("deleg")]
    whole = whole_src(f, src)
    names = {y["n"] for y in fields}
    for y in fields:
        fd = y["n"]
        key = "%s|%s|%s" % (f.short, kind, fd)
        if core.is_ptr(core.strip_cv(y["t"])) or y.get("ref") or viewish(prog, y):
            # views of own storage: never the source's
            bad = None
            x = inits.get(fd)
            if x is not None and x.get("i", -1) >= 0 and x.get("w", 1) and is_field(f, x["i"], src) == fd and fd in _selfset(prog, f):
                bad = x["i"]
            rep.add(bad is None, "transfer", key, f.loc(bad) if bad is not None else f.loc(), "" if bad is None else "%s takes over `%s`, which looks into the source's own storage" % (f.short, fd))
            continue
        if deleg or (whole and not any(k in inits and inits[k].get("w") for k in names)):
            rep.ok("transfer", key, f.loc(), "whole object")
            continue
        got, cross = False, None
        x = inits.get(fd)
        if x is not None and x.get("i", -1) is not None and x.get("i", -1) >= 0 and x.get("w", 1):
            if refers(f, x["i"], src, fd):
                got = True
            else:
                g = is_field(f, x["i"], src)
                if g is not None and g != fd:
                    cross = (x["i"], g)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Assign" or (n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and n.get("a")):
                l, rr = (n["c"][0], n["c"][1]) if n["k"] == "Assign" else (n["o"], n["a"][0])
                rt, fl, p = core.lval_root(f, l)
                if rt == "this" and fl and fl[0] == fd:
                    if refers(f, rr, src, fd):
                        got = True
                    else:
                        g = is_field(f, rr, src)
                        if g is not None and g != fd and g in names and fl == [fd]:
                            cross = (i, g)
                        elif mentions_root(f, rr, src) and g is None:
                            got = True
            elif n["k"] == "Call":
                parts = list(n.get("a", [])) + ([n["o"]] if n.get("o") is not None and n.get("o", -1) >= 0 else [])
                a = any(refers(f, q, "this", fd) for q in parts)
                b = any(refers(f, q, src, fd) for q in parts)
                if a and b:
                    got = True
        if cross is not None:
            rep.bad("transfer", key, f.loc(cross[0]), "%s sets `%s` from the source's `%s`" % (f.short, fd, cross[1]))
        else:
            rep.add(got, "transfer", key, f.loc(), "" if got else "%s does not carry `%s` over from its source" % (f.short, fd))
    # assignment operators: plain fields are set on every way out
    if kind.endswith("assign"):
        for y in fields:
            owner = OWNER.match(core.strip_cv(y["t"]))
            if not owner and not (y.get("scalar") and not core.is_ptr(core.strip_cv(y["t"]))) or y.get("const") or whole:
                continue
            fd = y["n"]
            ev = []
            W = effects.get(prog).W
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Assign":
                    rt, fl, p = core.lval_root(f, n["c"][0])
                    if rt == "this" and fl == [fd]:
                        ev.append(i)
                elif n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("swap", "exchange") and any(refers(f, q, "this", fd) for q in n.get("a", [])):
                    ev.append(i)
                elif n["k"] == "Call" and n.get("o", -1) is not None and n.get("o", -1) >= 0:
                    rt, fl, p = core.lval_root(f, n["o"])
                    if rt == "this" and fl == [fd] and n.get("f") not in prog.F and not n.get("mconst") and \
                            n.get("fn", "").rsplit("::", 1)[-1] in ("operator=", "reset", "swap", "assign", "clear"):
                        ev.append(i)
                    elif rt == "this" and not fl and any(e[0] == "this" and e[1][:1] == (fd,) for k2 in prog.targets(n) for e in W.get(k2, {})):
                        ev.append(i)
            bad = path.escape(f, ev, lambda p, x: not self_assign_edge(f, p, x, src))
            rep.add(not bad, "every-path", "%s|%s|%s" % (f.short, kind, fd), f.loc(), "" if not bad else "%s keeps the old `%s` on some way through" % (f.short, fd))


def _selfset(prog, f, memo={}):
    k = id(prog)
    if k not in memo:
        m = {}
        for cls, fds in self_views(prog).items():
            m.setdefault(re.sub(r"<.*", "", cls), set()).update(fds)
        memo[k] = m
    return memo[k].get(re.sub(r"<.*", "", f.get("cls") or ""), set())


def mentions_root(f, i, root):
    return any(f.N[j]["k"] == "Ref" and f.N[j].get("v") == root for j in f.walk(i))


def self_assign_edge(f, p, x, src):
    """the edge on which this == &source is known"""
    c = f.cfg.cond(p)
    if c is None or c < 0:
        return False
    n = f.N[c]
    t = pp.ex(f, c)
    if "this" not in t or "&" not in t:
        return False
    if not f.cfg.two_way(p):
        return False
    two = f.cfg.succ[p]
    op = n.get("op")
    if op == "==":
        return x == two[0]
    if op == "!=":
        return x == two[1]
    return False


def copy_ops(prog, rep):
    done = set()
    for f in prog.live():
        if not lib(f) or f.get("defaulted") or not f.params:
            continue
        c, a = f.get("ctor"), f.get("asg")
        if c not in ("copy", "move") and not a:
            continue
        t = core.strip_cv(f.T[f.params[0]["t"]].rstrip("& "))
        r = rec_of(prog, f, t)
        if r is None:
            continue
        kind = "%s %s" % (c or a, "constructor" if c else "assign")
        if (f.loc(), t.split("<")[0]) in done:
            continue
        done.add((f.loc(), t.split("<")[0]))
        transfers(prog, f, r, f.params[0]["v"], rep, kind)


def swaps(prog, rep):
    done = set()
    for f in prog.live():
        if not lib(f) or f.short.rsplit("::", 1)[-1] != "swap" or f.loc() in done:
            continue
        done.add(f.loc())
        mem = bool(f.get("cls")) and len(f.params) == 1
        if not mem and len(f.params) != 2:
            continue
        a = "this" if mem else f.params[0]["v"]
        b = f.params[-1]["v"]
        t = core.strip_cv(f.T[f.params[-1]["t"]].rstrip("& "))
        r = rec_of(prog, f, t)
        if r is None:
            continue
        # forwarding to the member swap
        if not mem and any(f.N[i]["k"] == "Call" and f.N[i].get("fn", "").rsplit("::", 1)[-1] == "swap" and
                           any(f.N[q]["k"] == "Ref" and f.N[q].get("v") == b for q in f.N[i].get("a", [])) for i in f.all_nodes()):
            rep.ok("swap", f.short + "|forward", f.loc())
            continue
        for y in r.get("fields", []):
            fd = y["n"]
            if y.get("const") or y.get("ref") or MUTEX.search(y["t"]):
                continue
            key = "%s|%s" % (re.sub(r"<.*?>", "", f.short), fd)
            wa, wb, ev, cross = False, False, [], None
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] == "swap":
                    parts = list(n.get("a", [])) + ([n["o"]] if n.get("o") is not None and n.get("o", -1) >= 0 else [])
                    if any(refers(f, q, a, fd) for q in parts) and any(refers(f, q, b, fd) for q in parts):
                        wa = wb = True
                        ev.append(i)
                    else:
                        fa = [is_field(f, q, a) for q in parts]
                        fb = [is_field(f, q, b) for q in parts]
                        if fd in fa and any(x and x != fd for x in fb):
                            cross = (i, next(x for x in fb if x and x != fd))
                elif n["k"] == "Assign" or (n["k"] == "Call" and n.get("op") == "=" and n.get("o") is not None and n.get("o", -1) >= 0):
                    l = n["c"][0] if n["k"] == "Assign" else n["o"]
                    rt, fl, p = core.lval_root(f, l)
                    if fl and fl[0] == fd:
                        wa |= rt == a
                        wb |= rt == b
                        if rt == b:
                            ev.append(i)
                elif n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("move", "copy", "swap_ranges", "exchange", "copy_n", "move_backward") and len(n.get("a", [])) >= 2:
                    d = n["a"][-1]
                    wa |= refers(f, d, a, fd)
                    wb |= refers(f, d, b, fd)
                    if n["fn"].endswith("swap_ranges"):
                        wa |= any(refers(f, q, a, fd) for q in n["a"])
                        wb |= any(refers(f, q, b, fd) for q in n["a"])
            if cross is not None:
                rep.bad("swap", key, f.loc(cross[0]), "%s exchanges `%s` with the other object's `%s`" % (f.short, fd, cross[1]))
                continue
            if not (wa and wb):
                rep.bad("swap", key, f.loc(), "%s does not exchange `%s`" % (f.short, fd))
                continue
            if y.get("scalar") and not core.is_ptr(core.strip_cv(y["t"])) and path.escape(f, ev):
                rep.bad("swap", key, f.loc(), "%s leaves `%s` unexchanged on some way through" % (f.short, fd))
                continue
            rep.ok("swap", key, f.loc())


# --------------------------------------------------------------------------- clones
def property_copiers(prog, rep):
    """functions that copy several fields of this object onto another one of the same class copy all of them, each from itself"""
    out = {}
    for f in prog.live():
        if not lib(f) or f.get("ctor") or not f.get("cls") or not f.params or f.get("asg"):
            continue
        for p in f.params:
            t = core.strip_cv(f.T[p["t"]].rstrip("& "))
            if t != f.get("cls") or not core.is_ref(f.T[p["t"]]):
                continue
            pairs = []
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Assign" and n["op"] == "=" or (n["k"] == "Call" and n.get("op") == "=" and n.get("o") is not None and n.get("o", -1) >= 0):
                    l, rr = (n["c"][0], n["c"][1]) if n["k"] == "Assign" else (n["o"], n["a"][0])
                    rt, fl, q = core.lval_root(f, l)
                    if rt == p["v"] and len(fl) == 1:
                        pairs.append((fl[0], is_field(f, rr, "this"), i, refers(f, rr, "this", fl[0])))
            same = [x for x in pairs if x[1] == x[0]]
            if len(same) < 3:
                continue
            r = prog.R.get(t)
            if r is None:
                continue
            out[f.key] = f
            have = {x[0]: x for x in pairs}
            for y in r.get("fields", []):
                if y.get("const") or y.get("ref") or MUTEX.search(y["t"]) or re.search(r"unique_ptr", y["t"]) or viewish(prog, y):
                    continue
                fd = y["n"]
                key = "%s|%s" % (f.short, fd)
                if fd not in have:
                    rep.bad("clone", key, f.loc(), "%s does not copy `%s`" % (f.short, fd))
                elif have[fd][1] is not None and have[fd][1] != fd:
                    rep.bad("clone", key, f.loc(have[fd][2]), "%s copies `%s` from `%s`" % (f.short, fd, have[fd][1]))
                else:
                    ev = [x[2] for x in pairs if x[0] == fd]
                    rep.add(not path.escape(f, ev), "clone", key, f.loc(have[fd][2]), "%s does not copy `%s` on every way through" % (f.short, fd))
    return out


CLONES = {
    # class: fields a clone must take from the original (directly or through an accessor)
    "Moment::MonomialMatrix": ["sym_exp_matrix", "global_prefactor", "unaliased_operator_matrix", "aliased_operator_matrix"],
    "Moment::PolynomialMatrix": ["sym_exp_matrix"],
}


def clones(prog, rep, copiers):
    for f in prog.live():
        if not lib(f) or f.short.rsplit("::", 1)[-1] != "clone":
            continue
        if all(f.N[j]["k"] != "Return" for j in f.all_nodes()):
            continue
        cls = f.get("cls")
        seen = set()
        reach = {f.key}
        todo = [f]
        while todo:
            g = todo.pop()
            for i in g.all_nodes():
                n = g.N[i]
                if n["k"] == "Mem":
                    seen.add(n["n"])
                if n["k"] == "Call":
                    seen.add(n.get("fn", "").rsplit("::", 1)[-1])
                    h = prog.F.get(n.get("f"))
                    if h is not None and h.body is not None and h.key not in reach and h.rel.startswith("cpp/lib_moment") and len(reach) < 60:
                        reach.add(h.key)
                        todo.append(h)
        for fd in CLONES.get(cls, []):
            direct = any(f.N[i]["k"] == "Mem" and f.N[i]["n"] == fd or f.N[i]["k"] == "Call" and f.N[i].get("fn", "").rsplit("::", 1)[-1] == fd for i in f.all_nodes())
            rep.add(direct or fd in seen, "clone", "%s|%s" % (f.short, fd), f.loc(), "" if direct or fd in seen else "%s does not carry `%s` over" % (f.short, fd))
        # plain member assignments on the clone come from the same member
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Assign" and n["op"] == "=" and f.N[n["c"][0]]["k"] == "Mem":
                l = f.N[n["c"][0]]
                g = is_field(f, n["c"][1], "this")
                if g is not None and core.lval_root(f, n["c"][0])[0] not in ("this", None):
                    rep.add(g == l["n"], "clone", "%s|=%s" % (f.short, l["n"]), f.loc(i), "" if g == l["n"] else "%s sets `%s` of the copy from `%s`" % (f.short, l["n"], g))
        for k, g in copiers.items():
            c = prog.R.get(cls)
            if cls and prog.is_a(cls, g.get("cls")) and cls in CLONES and any(f.N[j]["k"] == "Return" for j in f.all_nodes()):
                calls = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("f") == k]
                good = (bool(calls) and not path.escape(f, calls)) or (k in reach and not calls)
                rep.add(good, "clone", "%s|properties" % f.short, f.loc(), "" if good else "%s does not copy the matrix properties onto the clone" % f.short)


# --------------------------------------------------------------------------- equality
EQ = {
    # class (template arguments dropped): what equality must look at
    "Moment::HashedSequence": {"the_hash", "sign"},
    "Moment::Inflation::OVIndex": {"observable", "variant"},
    "Moment::Inflation::OVOIndex": {"observable_variant", "outcome"},
    "Moment::Monomial": {"id", "conjugated", "factor"},
    "Moment::Polynomial": {"data"},
    "Moment::DynamicBitset": {"data"},
    "Moment::SmallVector": {"data_start|begin|cbegin", "_size|end|cend"},
}
LESSEQ = {"approximately_equal", "approximately_equals", "equal"}
NEQ = {"not_approximately_equal", "not_approximately_equals"}


class EqInterp(order.Interp):
    def call(self, f, i, n, env):
        fn = n.get("fn", "") or ""
        last = fn.rsplit("::", 1)[-1]
        if last in LESSEQ or last in NEQ or last in ("operator==", "operator!="):
            tg = self.prog.F.get(n.get("f"))
            inl = tg is not None and tg.body is not None and not tg.get("dep") and tg.get("cls") and (tg.get("cls") == self.cls or last in ("operator==", "operator!=") and tg.key not in self.cmp)
            o = n.get("o", -1)
            ob = self.ev(f, o, env) if o is not None and o >= 0 else None
            args = [self.ev(f, x, env) for x in n.get("a", [])]
            both = ([ob] if ob is not None else []) + args
            if o is not None and o < 0 and inl and not n.get("static"):
                ob = env.get("this", ("this",))
            ss = set()
            for x in both:
                ss |= order.sides(x)
            if len(ss) == 2 and not (inl and env.get("depth", 0) < 4 and tg.key not in self.cmp):
                sided = [x for x in both if order.sides(x)]
                if any(len(order.sides(x)) != 1 for x in sided):
                    raise order.Unknown("call mixes the two values")
                first = order.sides(sided[0]).copy().pop()
                lead = [x for x in sided if order.sides(x) == {first}]
                other = [x for x in sided if order.sides(x) != {first}]
                if last in ("operator==", "operator!=") and len(lead) == len(other) == 1:
                    return self.bin(f, i, "==" if last == "operator==" else "!=", lead[0], other[0])
                if list(map(order.key_of, lead)) != list(map(order.key_of, other)):
                    raise order.Mixed(f, i, "compares different parts of the two values")
                k = ("by", "equal") + tuple(order.key_of(x) for x in lead)
                eq = self.value(k, 0) == self.value(k, 1)
                return not eq if last in NEQ else eq
            if len(ss) == 2:
                return self.inline(tg, ob, args, env)
        return order.Interp.call(self, f, i, n, env)


def eq_table(prog, f, cls, keys, extra=None):
    it = EqInterp(prog, keys)
    it.cls = cls
    for _ in range(60):
        try:
            out, stack = [], [{}]
            while stack:
                a = stack.pop()
                it.assign, it.steps = a, 0
                try:
                    env = {"depth": 0}
                    mem = bool(f.get("cls"))
                    c16.starter(f, "mem" if mem else "free")(f, env)
                    r = it.run(f, f.body, env)
                    if r is None or r[0] != "ret":
                        raise order.Unknown("no result")
                    v = r[1]
                    v = it.truth(f, f.body, v) if isinstance(v, tuple) else bool(v)
                    w = None
                    if extra is not None:
                        env = {"depth": 0}
                        c16.starter(extra, "mem" if extra.get("cls") else "free")(extra, env)
                        q = it.run(extra, extra.body, env)
                        if q is None or q[0] != "ret":
                            raise order.Unknown("no result")
                        w = it.truth(extra, extra.body, q[1]) if isinstance(q[1], tuple) else bool(q[1])
                    out.append((a, v, w))
                except order.Need as e:
                    for x in it.domain(e.key) if not (isinstance(e.key, tuple) and e.key[0] in ("selfrel", "shared")) else (0, 1, 2):
                        b = dict(a)
                        b[(e.key, e.side)] = x
                        stack.append(b)
                    if len(stack) > 200000:
                        raise order.Unknown("too many cases")
            return it, out
        except order.Grow:
            continue
    raise order.Unknown("no fixed point")


def equality(prog, rep):
    eqs, nes = {}, {}
    for f in prog.live():
        if not lib(f):
            continue
        last = f.short.rsplit("::", 1)[-1]
        if last not in ("operator==", "operator!=", "approximately_equals", "not_approximately_equals"):
            continue
        mem = bool(f.get("cls")) and f.params
        if not mem and len(f.params) != 2:
            continue
        t = core.strip_cv(f.T[f.params[0]["t"]].rstrip("& "))
        if mem and re.sub(r"<.*", "", t) != re.sub(r"<.*", "", f.get("cls")):
            continue
        (eqs if last in ("operator==", "approximately_equals") else nes)[(re.sub(r"<.*", "", t) if not re.search(r">::", t) else t, last, f.loc())] = f
    keys = {f.key for f in list(eqs.values()) + list(nes.values())}
    seen = set()
    for (t, last, loc), f in sorted(eqs.items(), key=lambda x: repr(x[0])):
        if loc in seen:
            continue
        seen.add(loc)
        if f.get("defaulted"):
            rep.ok("equality", f.short, loc, "member by member")
            continue
        cls = f.get("cls")
        g = None
        want = {"operator==": "operator!=", "approximately_equals": "not_approximately_equals"}[last]
        for (t2, l2, loc2), h in nes.items():
            if l2 == want and h.get("cls") == cls and h.T[h.params[0]["t"]] == f.T[f.params[0]["t"]]:
                g = h
        try:
            it, rows = eq_table(prog, f, cls, set(), None)
        except order.Mixed as e:
            rep.bad("equality", f.short, e.f.loc(e.nid), "%s %s: `%s`" % (f.short, e.text, pp.ex(e.f, e.nid)[:80]))
            continue
        except order.Unknown as e:
            rep.note("%s (%s): not decided (%s)" % (f.short, loc, e))
            continue
        rows2 = [(a, r) for a, r, _ in rows]
        ks, els, doms, res = c16.tabulate(it, rows2)
        if els is None or not ks:
            rep.note("%s (%s): not decided (%s)" % (f.short, loc, "too many keys" if ks else "compares nothing"))
        else:
            why = None
            shape = [j for j, k in enumerate(ks) if not (any((k, 0) in a for a, _ in rows2) and any((k, 1) in a for a, _ in rows2))]
            for senv, T in res:
                for x in range(len(els)):
                    if not T[x] >> x & 1 and not senv:
                        why = why or "a value does not equal itself: " + c16.show(ks, els[x])
                    m = T[x]
                    while m and why is None:
                        low = m & -m
                        y = low.bit_length() - 1
                        m ^= low
                        if any(els[x][j] != els[y][j] for j in shape):
                            continue
                        if not T[y] >> x & 1:
                            why = "not symmetric: %s and %s" % (c16.show(ks, els[x]), c16.show(ks, els[y]))
            rep.add(why is None, "equality", f.short, loc, "" if why is None else "%s: %s" % (f.short, why))
            # every key read decides: values that differ in exactly one key are unequal for some setting of the others
            must = EQ.get(re.sub(r"<.*", "", cls or t))
            if must:
                have = set()
                for k in ks:
                    c16.collect(prog, k, have)
                    order_leaves(k, have)
                dec = deciding(ks, els, res)
                for w in sorted(must):
                    alts = set(w.split("|"))
                    rel = [k for k in dec if alts & names_of(prog, k)]
                    rep.add(bool(rel), "equality-part", "%s|%s" % (f.short, w), loc, "" if rel else "%s does not tell values apart that differ in `%s`" % (f.short, w.split("|")[0]))
        if g is not None:
            try:
                it, rows = eq_table(prog, f, cls, set(), g)
                bad = [a for a, v, w in rows if v == w]
                rep.add(not bad, "negation", g.short, g.loc(), "" if not bad else "%s is not the negation of %s" % (g.short, f.short))
            except order.Mixed as e:
                rep.bad("negation", g.short, e.f.loc(e.nid), "%s %s: `%s`" % (g.short, e.text, pp.ex(e.f, e.nid)[:80]))
            except order.Unknown as e:
                rep.note("%s (%s): not decided (%s)" % (g.short, g.loc(), e))


def order_leaves(k, out):
    if isinstance(k, tuple):
        if k and k[0] == "call":
            out.add(str(k[1]).rsplit("::", 1)[-1])
        for x in k:
            order_leaves(x, out)


def names_of(prog, k):
    s = set()
    c16.collect(prog, k, s)
    order_leaves(k, s)
    return s


def deciding(ks, els, res):
    """keys k for which two elements that differ in k alone can be unequal"""
    out = []
    idx = {e: x for x, e in enumerate(els)}
    for j, k in enumerate(ks):
        hit = False
        for senv, T in res:
            for x, e in enumerate(els):
                for v in {q[j] for q in els}:
                    if v == e[j]:
                        continue
                    y = idx[e[:j] + (v,) + e[j + 1:]]
                    if not T[x] >> y & 1:
                        hit = True
                        break
                if hit:
                    break
            if hit:
                break
        if hit:
            out.append(k)
    return out


def check(prog, rep, tier):
    copy_ops(prog, rep)
    self_view_rule(prog, rep)
    swaps(prog, rep)
    cp = property_copiers(prog, rep)
    clones(prog, rep, cp)
    equality(prog, rep)
    moved.check(prog, rep, lib)
    rep.floor("transfer", 6)
    rep.floor("use-after-move", 100)
