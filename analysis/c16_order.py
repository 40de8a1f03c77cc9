"""C16: comparators are strict weak orders, tell apart everything that distinguishes two keys, and agree with the numeric keys handed out beside them."""
import itertools, re
import core, order, pp

RULE = ("every comparison of two values of one type (operator <, functors, and lambdas given to sorting and searching algorithms) is abstracted to a decision table over the relations between the keys of the "
        "two elements; the table must be irreflexive, asymmetric, transitive, and its 'neither is smaller' relation transitive; the same key is read from both sides; comparators that order the keys of "
        "associative containers (or the terms of a polynomial) read every field that tells two keys apart; a comparator and the numeric key() published beside it define the same order; "
        "a search uses the key its container is ordered by")
TECHNIQUE = "abstract interpretation of comparator bodies over a finite order domain, with exhaustive check of the order axioms on the resulting decision tables"
LEVEL = "bounded_exhaustive"

ALG2 = re.compile(r"std::(ranges::)?(__\w+::)?(sort|stable_sort|partial_sort|nth_element|min_element|max_element|minmax_element|is_sorted|is_sorted_until|inplace_merge|merge|set_\w+|includes|sort_heap|make_heap|push_heap|pop_heap)(_fn::operator\(\))?$")
BOUND = re.compile(r"std::(ranges::)?(__\w+::)?(lower_bound|upper_bound|equal_range|binary_search)(_fn::operator\(\))?$")
MAPKEY = re.compile(r"^(?:const )?std::(?:multi)?(map|set)<")


def lib(f):
    return f.rel.startswith("cpp/lib_moment") and not f.get("dep") and f.body is not None


def same_types(f, a, b):
    return core.strip_cv(f.T[a["t"]].rstrip("& ")) == core.strip_cv(f.T[b["t"]].rstrip("& "))


def boolret(f):
    """the function returns a bool or an ordering (decided on its return statements)"""
    for i in f.all_nodes():
        if f.N[i]["k"] == "Return" and f.kids(i):
            t = core.strip_cv(f.ty(f.kids(i)[0]))
            if t != "bool" and "_ordering" not in t:
                return False
    return True


def comparators(prog):
    out = {}
    for f in prog.live():
        if not lib(f):
            continue
        n = len(f.params)
        if f.short.endswith(("::operator<", "::operator>", "::operator<=>")) or f.short in ("operator<", "operator>", "operator<=>"):
            mem = bool(f.get("cls")) and not f.get("static") and n == 1
            if mem or (n == 2 and same_types(f, f.params[0], f.params[1])):
                if mem:
                    t = core.strip_cv(f.T[f.params[0]["t"]].rstrip("& "))
                    if not (t == f.get("cls") or t.startswith(f.get("cls") + "<") or t.split("<")[0] == str(f.get("cls")).split("<")[0]):
                        continue
                out[f.key] = (f, "mem" if mem else "free")
        elif f.short.endswith("operator()") and n == 2 and same_types(f, f.params[0], f.params[1]) and boolret(f) and not f.get("lambda") and not f.short.startswith("(lambda"):
            out[f.key] = (f, "free")
    return out


def lambda_of(f, i):
    n = f.N[i]
    while n["k"] in ("Cast", "Temp", "Ctor", "InitList", "Implicit") and f.kids(i):
        i = f.kids(i)[-1]
        n = f.N[i]
    return n.get("f") if n["k"] == "Lambda" else None


def starter(f, how):
    def go(_, env):
        if how == "mem":
            env["this"] = ("p", 0)
            env[f.params[0]["v"]] = ("p", 1)
        else:
            env["this"] = ("this",)
            env[f.params[0]["v"]] = ("p", 0)
            env[f.params[1]["v"]] = ("p", 1)
    return go


def tabulate(it, rows):
    keys = sorted({k for a, _ in rows for (k, s) in a if s != 2}, key=repr)
    shared = sorted({k for a, _ in rows for (k, s) in a if s == 2}, key=repr)
    dom = lambda k: (0, 1, 2) if isinstance(k, tuple) and k[0] in ("selfrel", "shared") else it.domain(k)
    doms = [dom(k) for k in keys]
    n = 1
    for d in doms:
        n *= len(d)
    if n > 3200:
        return keys, None, None, None
    els = list(itertools.product(*doms))
    pos = {k: j for j, k in enumerate(keys)}
    res = []
    sdoms = [dom(k) for k in shared]
    masks = {}
    for k in keys:
        j = pos[k]
        for v in doms[j]:
            m = 0
            for x, e in enumerate(els):
                if e[j] == v:
                    m |= 1 << x
            masks[(k, v)] = m
    full = (1 << len(els)) - 1
    for sv in itertools.product(*sdoms):
        senv = dict(zip(shared, sv))
        T = [0] * len(els)
        for a, r in rows:
            if not r:
                continue
            ml = mr = full
            ok = True
            for (k, s), v in a.items():
                if s == 2:
                    if senv[k] != v:
                        ok = False
                        break
                elif s == 0:
                    ml &= masks[(k, v)]
                else:
                    mr &= masks[(k, v)]
            if not ok or not ml or not mr:
                continue
            while ml:
                low = ml & -ml
                T[low.bit_length() - 1] |= mr
                ml ^= low
        res.append((senv, T))
    return keys, els, doms, res


def name(k):
    if isinstance(k, tuple):
        if k[0] == "p":
            return "x"
        if k[0] == ".":
            b = name(k[1])
            return (b + "." if b else "") + str(k[2])
        if k[0] == "this":
            return ""
        if k[0] == "call":
            return "%s(%s)" % (str(k[1]).rsplit("::", 1)[-1], ", ".join(name(x) for x in k[2:]))
        if k[0] == "by":
            return "order of " + ", ".join(name(x) for x in k[2:])
        if k[0] == "bin":
            return "(%s %s %s)" % (name(k[2]), k[1], name(k[3]))
        return "%s" % (k[0],) + "(" + ", ".join(name(x) for x in k[1:]) + ")"
    return str(k)


def show(keys, e):
    return "{" + ", ".join("%s=%s" % (name(k)[:40], v) for k, v in zip(keys, e)) + "}"


def axioms(keys, els, res):
    """first violated axiom or None"""
    n = len(els)
    for senv, T in res:
        for x in range(n):
            if T[x] >> x & 1:
                return "a value compares smaller than itself: " + show(keys, els[x])
        cols = [0] * n
        for x in range(n):
            r = T[x]
            bx = 1 << x
            while r:
                low = r & -r
                cols[low.bit_length() - 1] |= bx
                r ^= low
        for x in range(n):
            both = T[x] & cols[x]
            if both:
                y = (both & -both).bit_length() - 1
                return "each of two values compares smaller than the other: %s and %s" % (show(keys, els[x]), show(keys, els[y]))
        full = (1 << n) - 1
        rows = {}
        for x in range(n):
            r = T[x]
            # group by identical rows to save time
            if r in rows:
                continue
            rows[r] = x
            s = r
            seen = set()
            while s:
                low = s & -s
                y = low.bit_length() - 1
                s ^= low
                if T[y] in seen:
                    continue
                seen.add(T[y])
                m = T[y] & ~r & full
                if m:
                    z = (m & -m).bit_length() - 1
                    return "not transitive: %s < %s < %s" % (show(keys, els[x]), show(keys, els[y]), show(keys, els[z]))
        inc = [full & ~T[x] & ~cols[x] for x in range(n)]
        seen = set()
        for x in range(n):
            if inc[x] in seen:
                continue
            seen.add(inc[x])
            s = inc[x]
            while s:
                low = s & -s
                y = low.bit_length() - 1
                s ^= low
                if inc[y] != inc[x]:
                    m = inc[y] ^ inc[x]
                    z = (m & -m).bit_length() - 1
                    return "equivalence is not transitive: %s ~ %s, but %s relates differently to them" % (show(keys, els[x]), show(keys, els[y]), show(keys, els[z]))
    return None


def record(prog, name):
    return prog.R.get(name)


def fields_of(prog, cls):
    """own and inherited fields, [(class, field)]"""
    out = []
    r = prog.R.get(cls)
    if r is None:
        return out
    for b in r.get("bases", []):
        bn = b if isinstance(b, str) else b.get("n", "")
        out += fields_of(prog, bn)
    for x in r.get("fields", []):
        out.append((cls, x["n"]))
    return out


def touched(prog, f, out, depth=0, seen=None):
    """names of the fields a comparator (and what it calls) reads"""
    seen = seen if seen is not None else set()
    if f.key in seen or depth > 5:
        return out
    seen.add(f.key)
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Mem":
            fd = n.get("fd")
            if fd:
                out.add(fd)
        elif n["k"] == "Call":
            g = prog.F.get(n.get("f"))
            if g is not None and g.body is not None and g.rel.startswith("cpp/lib_moment") and not g.get("dep"):
                touched(prog, g, out, depth + 1, seen)
    return out


def both_sides(it, rows):
    """keys that are read from both elements"""
    l, r = set(), set()
    for a, _ in rows:
        for (k, s) in a:
            if s == 0:
                l.add(k)
            elif s == 1:
                r.add(k)
    return l & r


def key_fields(prog, it, rows, cls):
    """fields (by simple name) of the compared class that some key reads from both sides"""
    out = set()
    for k in both_sides(it, rows):
        ks = k[1:2] if isinstance(k, tuple) and k[0] == "selfrel" else (k,)
        for t in ks:
            collect(prog, t, out)
    return out


def collect(prog, t, out):
    if not isinstance(t, tuple):
        return
    if t and t[0] == ".":
        out.add(t[2])
    if t and t[0] == "call":
        # an accessor or helper: the fields it reads
        for g in prog.F.values():
            if g.name == t[1] and g.body is not None and not g.get("dep"):
                for fd in touched(prog, g, set()):
                    out.add(fd.rsplit("::", 1)[-1])
                break
    if t and t[0] == "by":
        # another comparator decides on the whole of its operands
        for x in t[2:]:
            if x == ("p", 0):
                out.add("*")
    if t == ("p", 0):
        return
    for x in t:
        if isinstance(x, tuple):
            collect(prog, x, out)


# comparators whose documented meaning fixes what they must tell apart: class -> fields
MUST = [
    (re.compile(r"Moment::IdLessComparator::operator\(\)$"), "Moment::Monomial", {"id", "conjugated"}),
    (re.compile(r"Moment::IdMoreComparator::operator\(\)$"), "Moment::Monomial", {"id", "conjugated"}),
    (re.compile(r"Moment::CompareByOpHash::operator\(\)$"), "Moment::Monomial", {"id", "conjugated"}),
    (re.compile(r"Moment::HashedSequence::operator<$"), "Moment::HashedSequence", {"the_hash"}),
]


def map_keys(prog):
    """(key type, comparator type or None, where) of the ordered associative containers of the library"""
    out = {}
    for nm, r in prog.R.items():
        if nm.startswith("T:") or not str(r.get("file", "")).find("lib_moment") >= 0:
            continue
        for x in r.get("fields", []):
            t = x["t"]
            m = re.search(r"std::(multi)?(map|set)<", t)
            if not m:
                continue
            args = split_args(t[m.end():])
            kt = args[0]
            isset = m.group(2) == "set"
            cmp_ = args[1] if isset and len(args) > 1 else args[2] if not isset and len(args) > 2 else None
            out[(core.strip_cv(kt), cmp_)] = "%s.%s" % (nm, x["n"])
    return out


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        elif ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def check(prog, rep, tier):
    cmps = comparators(prog)
    cset = set(cmps)
    done = {}
    seen = set()
    work = [(f, how, "functor" if f.short.endswith("operator()") else "operator") for f, how in cmps.values()]
    # lambdas handed to algorithms
    hetero = []
    for f in prog.live():
        if not f.rel.startswith("cpp/lib_moment"):
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call":
                continue
            fn = n.get("fn", "") or ""
            if ALG2.match(fn) or BOUND.match(fn):
                for a in n.get("a", []):
                    lk = lambda_of(f, a)
                    g = prog.F.get(lk) if lk else None
                    if g is None and lk:
                        for h in prog.lambdas_of(f) if hasattr(prog, "lambdas_of") else []:
                            if h.key == lk:
                                g = h
                    if g is None:
                        continue
                    insts = [g]
                    if g.get("dep"):
                        insts = [h for h in prog.F.values() if h.get("lambda") and not h.get("dep") and h.loc() == g.loc()] or [g]
                    for g in insts[:1]:
                        if len(g.params) != 2:
                            continue
                        if BOUND.match(fn):
                            hetero.append((f, i, g))
                        else:
                            work.append((g, "free", "lambda"))
    rep.extra["comparators"] = len(work)
    for f, how, kind in work:
        loc = f.loc(f.body) if f.body is not None else f.loc()
        key = "%s|%s" % (f.short, f.T[f.params[0]["t"]]) if kind != "lambda" else f.short
        if kind == "functor" and not ranks(prog, f):
            rep.note("%s (%s): a relation that nothing is ordered by" % (f.short, loc))
            continue
        if f.get("defaulted"):
            rep.ok("order", key, loc, "defaulted: member by member, in order")
            continue
        if loc in seen and kind != "functor":
            pass
        try:
            it, rows = order.table(prog, f, starter(f, how), cset - {f.key})
        except order.Mixed as e:
            rep.bad("same-keys", key, e.f.loc(e.nid), "%s %s: `%s`" % (f.short, e.text, pp.ex(e.f, e.nid)[:90]))
            continue
        except order.Unknown as e:
            rep.note("%s (%s): not decided (%s)" % (f.short, loc, e))
            continue
        if any(not isinstance(r, (bool, int)) for _, r in rows):
            rep.note("%s (%s): no truth value" % (f.short, loc))
            continue
        if "<=>" in f.short or "operator>" in f.short:
            rows = [(a, (r < 0) if "<=>" in f.short else bool(r)) for a, r in rows]
        keys, els, doms, res = tabulate(it, rows)
        if els is None:
            it2 = None
            rep.note("%s (%s): too many keys for the exhaustive check (%d)" % (f.short, loc, len(keys)))
            continue
        if not keys:
            rep.note("%s (%s): compares nothing" % (f.short, loc))
            continue
        why = axioms(keys, els, res)
        rep.add(why is None, "order", key, loc, "" if why is None else "%s is not a strict weak order: %s" % (f.short, why))
        done[f.key] = (it, rows, keys)
    fields_rule(prog, rep, cmps, done)
    overloads(prog, rep, cmps, done)
    searches(prog, rep, hetero, cset)
    keys_agree(prog, rep, cmps, cset)


def overloads(prog, rep, cmps, done):
    """comparing symbol numbers and comparing terms that differ in the symbol number go the same way"""
    def anc(c, out):
        r = prog.R.get(c)
        out.append(c)
        for b in (r or {}).get("bases", []):
            anc(b if isinstance(b, str) else b.get("n", ""), out)
        return out
    for k, (f, how) in sorted(cmps.items()):
        if k not in done or not f.short.endswith("operator()") or core.strip_cv(f.T[f.params[0]["t"]].rstrip("& ")) != "Moment::Monomial":
            continue
        up = anc(f.get("cls"), [])
        gs = [g for g, h in cmps.values() if g.get("cls") in up and g.key in done and g.short.endswith("operator()") and core.is_int_type(core.strip_cv(g.T[g.params[0]["t"]]))]
        gs.sort(key=lambda g: up.index(g.get("cls")))
        for g in gs[:1]:
            kid = (".", ("p", 0), "id")
            rows_f = [(a, r) for a, r in done[k][1] if (kid, 0) in a and (kid, 1) in a and a[(kid, 0)] != a[(kid, 1)]]
            rows_g = done[g.key][1]
            if not rows_f or any(kk != ("p", 0) for a, _ in rows_g for (kk, s) in a):
                continue
            tab = {}
            for a, r in rows_g:
                if (("p", 0), 0) in a and (("p", 0), 1) in a:
                    d = a[(("p", 0), 0)] - a[(("p", 0), 1)]
                    tab[(d > 0) - (d < 0)] = bool(r)
            bad = [a for a, r in rows_f if tab.get(1 if a[(kid, 0)] > a[(kid, 1)] else -1, bool(r)) != bool(r)]
            rep.add(not bad, "overloads", f.name, f.loc(), "" if not bad else
                    "%s orders terms by symbol number the other way round than it orders symbol numbers (%s)" % (f.short, g.short))


def ranks(prog, f):
    """the functor is used as an order: it is the comparator of a container or algorithm, or publishes a key"""
    cls = f.get("cls") or ""
    if any(g.get("cls") == cls and g.name.endswith("::key") for g in prog.F.values()):
        return True
    last = re.sub(r"<.*", "", cls).rsplit("::", 1)[-1]
    if any(c and last and re.search(r"\b%s\b" % re.escape(last), c) for (k, c) in map_keys(prog)):
        return True
    if re.search(r"Compar|Order|Less|More|Greater|Sorter", last) and not re.search(r"Eq|equal", last):
        return True
    for g in prog.live():
        for i in g.all_nodes():
            n = g.N[i]
            if n["k"] == "Call" and ALG2.match(n.get("fn", "") or "") and n.get("a") and cls and core.strip_cv(g.ty(n["a"][-1])).startswith(cls):
                return True
    return False


def fields_rule(prog, rep, cmps, done):
    for rx, cls, want in MUST:
        for k, (f, how) in cmps.items():
            if not rx.search(f.name) or core.strip_cv(f.T[f.params[0]["t"]].rstrip("& ")) != cls or k not in done:
                continue
            it, rows, keys = done[k]
            have = key_fields(prog, it, rows, cls)
            have |= {x.rsplit("::", 1)[-1] for x in ()}
            miss = sorted(w for w in want if w not in have)
            rep.add(not miss, "tells-apart", f.name, f.loc(), "" if not miss else "%s does not compare `%s`" % (f.short, "`, `".join(miss)))
    for (kt, cmp_), where in sorted(map_keys(prog).items(), key=repr):
        if cmp_ and not cmp_.startswith("std::less"):
            cname = re.sub(r"<.*>", "", cmp_)
            fs = [(f, how) for f, how in cmps.values() if re.sub(r"<[^>]*>", "", f.name).endswith(cname.split("::")[-1] + "::operator()") and core.strip_cv(f.T[f.params[0]["t"]].rstrip("& ")).split("<")[0] == kt.split("<")[0]]
        else:
            if kt not in prog.R:
                continue
            fs = []
            todo, anc = [kt], []
            while todo:
                c = todo.pop(0)
                anc.append(c)
                r = prog.R.get(c)
                todo += [b if isinstance(b, str) else b.get("n", "") for b in (r or {}).get("bases", [])]
            for c in anc:
                fs = [(f, how) for f, how in cmps.values() if core.strip_cv(f.T[f.params[0]["t"]].rstrip("& ")) == c and not f.short.endswith("operator()")]
                if fs:
                    break
            if not fs:
                # a comparison the type converts to: an implicit conversion decides; nothing to check here
                rep.note("no library comparison found for the keys of %s (%s)" % (where, kt))
                continue
        for f, how in fs[:1]:
            loc = f.loc()
            if f.get("defaulted"):
                c0 = core.strip_cv(f.T[f.params[0]["t"]].rstrip("& "))
                extra = [n for c, n in fields_of(prog, kt) if (c, n) not in fields_of(prog, c0)]
                rep.add(not extra, "tells-apart", "%s|%s" % (kt, where), loc, "" if not extra else "keys of %s are compared without `%s`" % (where, "`, `".join(extra)))
                continue
            if f.key not in done:
                continue
            it, rows, keys = done[f.key]
            have = key_fields(prog, it, rows, kt)
            miss = sorted({n for c, n in fields_of(prog, kt) if n not in have and "*" not in have})
            rep.add(not miss, "tells-apart", "%s|%s" % (kt, where), loc, "" if not miss else
                    "the order of the keys of %s does not compare `%s`: keys that differ there replace each other" % (where, "`, `".join(miss)))
    rep.floor("tells-apart", 3)
    rep.floor("order", 5)


def searches(prog, rep, hetero, cset):
    """binary searches: element-before-value predicates go the way the container is ordered"""
    seen = set()
    for f, i, g in hetero:
        loc = f.loc(i)
        if loc in seen:
            continue
        fn = f.N[i]["fn"]
        if "lower_bound" not in fn and "upper_bound" not in fn:
            continue
        seen.add(loc)
        flip = "upper_bound" in fn

        class I2(order.Interp):
            def relation(self, ff, nid, a, b):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    ta, sa, oa = self.norm(a)
                    tb, sb, ob = self.norm(b)
                    s1, s2 = order.sides(ta), order.sides(tb)
                    if len(s1) == 1 and len(s2) == 1 and s1 != s2:
                        pr = ("het", order.key_of(ta) if s1 == {0} else order.key_of(tb), order.key_of(tb) if s1 == {0} else order.key_of(ta))
                        v = self.value(pr, 2) - 1 - (oa - ob if s1 == {0} else ob - oa) * 0
                        if oa != ob:
                            raise order.Unknown("offset")
                        return sa * (v if s1 == {0} else -v)
                return order.Interp.relation(self, ff, nid, a, b)
        it = I2(prog, cset)
        outs = {}
        try:
            for _ in range(20):
                try:
                    stack, outs = [{}], {}
                    while stack:
                        a = stack.pop()
                        it.assign, it.steps = a, 0
                        try:
                            env = {"depth": 0, "this": ("this",), g.params[0]["v"]: ("p", 0), g.params[1]["v"]: ("p", 1)}
                            r = it.run(g, g.body, env)
                            if r is None or r[0] != "ret":
                                raise order.Unknown("no result")
                            v = r[1]
                            outs[tuple(sorted(a.items(), key=repr))] = it.truth(g, g.body, v) if isinstance(v, tuple) else bool(v)
                        except order.Need as e:
                            for x in (0, 1, 2):
                                b = dict(a)
                                b[(e.key, e.side)] = x
                                stack.append(b)
                    break
                except order.Grow:
                    continue
        except (order.Unknown, order.Mixed) as e:
            rep.note("search at %s: not decided (%s)" % (loc, e))
            continue
        ks = {k for a in outs for (k, s), v in a}
        if len(ks) != 1 or list(ks)[0][0] != "het":
            rep.note("search at %s: more than one key" % loc)
            continue
        tab = {v: r for a, r in outs.items() for (k, s), v in a}
        # lower_bound: pred(element, value) = element < value; upper_bound: pred(value, element) = value < element
        good = tab == {0: True, 1: False, 2: False}
        rep.add(good, "search", "%s|%s" % (f.short, fn), loc, "" if good else
                "the predicate of the binary search in %s does not mean '%s': an entry that is there is not found, or a second one is made" % (f.short, "value before element" if flip else "element before value"))


def keys_agree(prog, rep, cmps, cset):
    """operator()(x, y) == (key(x) < key(y))"""
    by = {}
    for k, (f, how) in cmps.items():
        if f.short.endswith("operator()"):
            by.setdefault(f.get("cls"), []).append(f)
    for cls, fs in sorted(by.items(), key=repr):
        ks = [g for g in prog.F.values() if g.get("cls") == cls and g.name.endswith("::key") and len(g.params) == 1 and g.body is not None and not g.get("dep")]
        for g in ks[:1]:
            distinct_keys(prog, rep, g, cset)
            for f in fs:
                if not same_types2(f, g):
                    continue
                if any(f.N[i]["k"] == "Call" and f.N[i].get("f") == g.key for i in f.all_nodes()):
                    n = len(rep.obl)
                    uses_key(prog, rep, f, g, cset)
                    if len(rep.obl) > n:
                        continue
                try:
                    it, rows = joint(prog, f, g, cset)
                except (order.Unknown, order.Mixed) as e:
                    rep.note("%s and key(): not decided (%s)" % (f.short, e))
                    continue
                badr = [(a, r, q) for a, r, q in rows if r != q]
                rep.add(not badr, "key-agrees", f.name, g.loc(), "" if not badr else
                        "%s and the key it publishes disagree, e.g. on %s" % (f.short, ", ".join("%s=%s/%s" % (name(k)[:30], badr[0][0].get((k, 0), "*"), badr[0][0].get((k, 1), "*")) for k in sorted({k for (k, s) in badr[0][0]}, key=repr))))


def uses_key(prog, rep, f, g, cset):
    """the comparator compares key(x) with key(y) itself"""
    try:
        it, rows = order.table(prog, f, starter(f, "free"), cset - {f.key})
    except (order.Unknown, order.Mixed):
        return
    ks = {k for a, _ in rows for (k, s) in a}
    if len(ks) == 1 and isinstance(list(ks)[0], tuple) and list(ks)[0][:2] == ("call", g.name):
        k = list(ks)[0]
        good = all((a[(k, 0)] < a[(k, 1)]) == bool(r) for a, r in rows if (k, 0) in a and (k, 1) in a)
        rep.add(good, "key-agrees", f.name, f.loc(), "" if good else "%s is not 'key(x) < key(y)'" % f.short)


def distinct_keys(prog, rep, g, cset):
    """every value the key function can return tells symbols, and a symbol and its conjugate, apart"""
    if core.strip_cv(g.T[g.params[0]["t"]].rstrip("& ")) != "Moment::Monomial":
        return
    it = order.Interp(prog, cset)
    for _ in range(40):
        try:
            stack, out = [{}], []
            while stack:
                a = stack.pop()
                it.assign, it.steps = a, 0
                try:
                    r = it.run(g, g.body, {"depth": 0, "this": ("this",), g.params[0]["v"]: ("p", 0)})
                    out.append((a, r))
                except order.Need as e:
                    for x in it.domain(e.key):
                        b = dict(a)
                        b[(e.key, e.side)] = x
                        stack.append(b)
            break
        except order.Grow:
            continue
        except (order.Unknown, order.Mixed) as e:
            rep.note("%s: not decided (%s)" % (g.short, e))
            return
    bad = None
    for a, r in out:
        if r is None or r[0] != "ret":
            continue
        lv = set()
        order.leaves(r[1], lv)
        by = set()
        for (k, s) in a:
            order.leaves(k, by)
        if "id" not in lv:
            bad = "id"
        elif "conjugated" not in lv and "conjugated" not in by:
            bad = "conjugated"
    rep.add(bad is None, "key-distinct", g.name, g.loc(), "" if bad is None else "%s can return a key that does not depend on `%s`" % (g.short, bad))


def same_types2(f, g):
    return core.strip_cv(f.T[f.params[0]["t"]].rstrip("& ")) == core.strip_cv(g.T[g.params[0]["t"]].rstrip("& "))


def joint(prog, f, g, cset):
    it = order.Interp(prog, cset - {f.key})
    for _ in range(60):
        try:
            out, stack = [], [{}]
            while stack:
                a = stack.pop()
                it.assign, it.steps = a, 0
                try:
                    env = {"depth": 0}
                    starter(f, "free")(f, env)
                    r = it.run(f, f.body, env)
                    ks = []
                    for side in (0, 1):
                        e2 = {"depth": 0, "this": ("this",), g.params[0]["v"]: ("p", side)}
                        q = it.run(g, g.body, e2)
                        if q is None or q[0] != "ret":
                            raise order.Unknown("key has no result")
                        ks.append(q[1])
                    v = r[1]
                    v = it.truth(f, f.body, v) if isinstance(v, tuple) else bool(v)
                    out.append((a, v, it.relation(g, g.body, ks[0], ks[1]) < 0))
                except order.Need as e:
                    for x in it.domain(e.key) if not (isinstance(e.key, tuple) and e.key[0] in ("selfrel", "shared")) else (0, 1, 2):
                        b = dict(a)
                        b[(e.key, e.side)] = x
                        stack.append(b)
            return it, out
        except order.Grow:
            continue
    raise order.Unknown("no fixed point")
