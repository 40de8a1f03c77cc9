"""C18: results do not depend on addresses, hash order, time, chance, thread schedule or uninitialised memory."""
import re
import core, dep, effects, path, pp

RULE = ("sources of irreproducibility: no live function of the library draws on random numbers, clocks, identities of processes or threads, addresses used as numbers, "
        "relative order of unrelated addresses, or the iteration order of hash containers; no mutable static state carries over between calls; every scalar variable and field is "
        "assigned before the first read; and worker threads never append to, or number things with, storage that they share with each other")
TECHNIQUE = "whole-program scan of calls, casts, comparisons and types on the typed syntax tree; definite-assignment on the control flow graph; interprocedural write effects of thread entry points"
LEVEL = "other"

NONDET = re.compile(r"(^|::)(rand|srand|rand_r|drand48|lrand48|random|time|clock|gettimeofday|clock_gettime|getpid|gettid|pthread_self|get_id|getenv|"
                    r"random_device|hash_value|tmpnam|rdtsc|__rdtsc|getrandom|steady_clock|high_resolution_clock|system_clock|random_shuffle|shuffle|sample)$")
NOW = re.compile(r"std::chrono::.*::now$")
ENGINE = re.compile(r"std::(random_device|mersenne_twister_engine|linear_congruential_engine|minstd_rand0?|mt19937|default_random_engine|_V2::(system|steady)_clock)")
UNORD = re.compile(r"std::(__detail::|__debug::|)?unordered_(multi)?(map|set)\b|_Hashtable|_Node_(const_)?iterator|_Local_iterator")
PTRKEY = re.compile(r"std::(multi)?(set|map)<(const )?[^,<>]*(<[^<>]*>)?[^,<>]*\*( const)?\s*[,>]|std::(multi)?(set|map)<(const )?std::(unique|shared)_ptr<")
SORTS = re.compile(r"std::(ranges::)?(__\w+::)?(sort|stable_sort|min_element|max_element|lower_bound|upper_bound|partial_sort|nth_element|make_heap|set_union|set_intersection|set_difference|merge)(_fn::operator\(\))?$")
PTRRANGE = re.compile(r"__normal_iterator<(const )?[^<>]*\*( const)? ?\*,|^(const )?[^<>]*\*( const)? ?\*$|std::(vector|array|span)<(const )?[^<>]*\*")
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "append", "resize", "emplace_hint", "push"}
COPYOPS = ("copy", "move")


def lib(f):
    return f.rel.startswith("cpp/lib_moment") and not f.get("dep")


def scalar(t):
    t = core.strip_cv(t)
    return core.is_int_type(t) or t in ("double", "float", "bool", "char", "signed char", "unsigned char", "short", "long double") or core.is_ptr(t)


def _anon(f):
    return f.short


# --------------------------------------------------------------------------- forbidden sources
def sources(prog, rep):
    for f in prog.live():
        if not lib(f):
            continue
        cn = None
        hits = []
        calls = 0
        for i in f.all_nodes():
            n = f.N[i]
            k = n["k"]
            if k == "Call":
                calls += 1
                fn = n.get("fn", "") or ""
                if NONDET.search(fn) and not fn.startswith("Moment::") or NOW.search(fn):
                    hits.append((i, "calls %s" % fn))
                elif re.search(r"(_for_overwrite|^malloc|^realloc|^std::malloc|^alloca)$", fn):
                    hits.append((i, "allocates memory without giving it values"))
                elif fn.endswith("hardware_concurrency") and "Multithreading" not in f.name:
                    hits.append((i, "asks for the number of processors outside the choice of worker threads"))
                o = n.get("o", -1)
                if o is not None and o >= 0 and fn.rsplit("::", 1)[-1] in ("begin", "cbegin", "rbegin") and UNORD.search(f.ty(o)):
                    hits.append((i, "walks a hash container: the order of its elements is not determined by its contents"))
                if fn in ("std::begin", "std::cbegin", "std::ranges::begin") and n.get("a") and UNORD.search(f.ty(n["a"][0])):
                    hits.append((i, "walks a hash container: the order of its elements is not determined by its contents"))
                # writing an address to a stream
                if fn.endswith("operator<<") and n.get("a"):
                    t = core.strip_cv(f.ty(n["a"][-1]))
                    if core.is_ptr(t) and not re.search(r"\bchar\b|\(", t) and "basic_ostream" in (f.ty(o) if o is not None and o >= 0 else f.ty(n["a"][0])):
                        hits.append((i, "writes an address to a stream"))
                if SORTS.match(fn) and n.get("a") and not functor_arg(f, n) and PTRRANGE.search(core.strip_cv(f.ty(n["a"][0]))):
                    hits.append((i, "orders addresses"))
                if fn.endswith("hash::operator()") and n.get("a") and core.is_ptr(core.strip_cv(f.ty(n["a"][-1]))):
                    hits.append((i, "hashes an address"))
                if fn.endswith(("less::operator()", "greater::operator()")) and n.get("a") and core.is_ptr(core.strip_cv(f.ty(n["a"][-1]))):
                    hits.append((i, "orders addresses"))
            elif k == "Ctor":
                if ENGINE.search(n.get("cls", "") or ""):
                    hits.append((i, "creates %s" % n["cls"]))
            elif k == "New" and not n.get("npl") and scalar(re.sub(r"\*$", "", f.ty(i)).strip()) and (not f.kids(i) or core.is_int_type(core.strip_cv(f.ty(f.kids(i)[-1]))) and
                                                                                                f.N[f.kids(i)[-1]]["k"] not in ("InitList", "ValInit", "ImplicitValueInit")):
                hits.append((i, "allocates memory without giving it values"))
            elif k == "RangeFor":
                if UNORD.search(f.ty(n["range"])):
                    hits.append((i, "walks a hash container: the order of its elements is not determined by its contents"))
            elif k == "Cast":
                ks = f.kids(i)
                if ks:
                    t, s = core.strip_cv(f.ty(i)), core.strip_cv(f.ty(ks[0]))
                    if core.is_ptr(s) and core.is_int_type(t) and t != "bool":
                        hits.append((i, "uses an address as a number"))
            elif k == "Bin" and n.get("op") in ("<", ">", "<=", ">=", "<=>"):
                a, b = n["c"]
                if core.is_ptr(core.strip_cv(f.ty(a))) and core.is_ptr(core.strip_cv(f.ty(b))):
                    cn = cn or core.Canon(f)
                    if not same_array(f, cn, a, b):
                        hits.append((i, "orders two addresses that need not belong to one array"))
            elif k == "Decl":
                for v in n["vars"]:
                    t = f.T[v["t"]]
                    if PTRKEY.search(t):
                        hits.append((i, "declares a container ordered by address (%s)" % t[:80]))
                    if v.get("static"):
                        m = static_use(f, v, t, i)
                        if m:
                            hits.append((i, m))
        if not hits:
            if calls:
                rep.ok("sources", f.name, f.loc(f.body) if f.body >= 0 else f.rel)
        for i, m in hits:
            rep.bad("sources", f.name, f.loc(i), m)
    for name, r in prog.R.items():
        if r.get("dep") or "lib_moment" not in r.get("file", ""):
            continue
        for x in r.get("fields", []):
            if PTRKEY.search(x["t"]):
                rep.bad("sources", name + "::" + x["n"], "%s:%s" % (r.get("file"), r.get("line")), "field is a container ordered by address (%s)" % x["t"][:80])
    for g, x in prog.G.items():
        loc = "%s:%s" % (x.get("file", ""), x.get("line", ""))
        if "lib_moment" not in str(x.get("file", "")):
            continue
        if x.get("const") or x.get("constexpr"):
            rep.ok("global state", g, loc)
        else:
            rep.bad("global state", g, loc, "variable outside any object can be changed: results then depend on what ran before")


def functor_arg(f, n):
    for a in n.get("a", [])[1:]:
        t = f.ty(a)
        x = a
        if "(lambda" in t or f.N[x]["k"] == "Lambda" or "(*)" in t or any(f.N[y]["k"] == "Lambda" for y in f.walk(a)):
            return True
        t = core.strip_cv(t)
        if not ("__normal_iterator" in t or core.is_ptr(t) or core.is_int_type(t) or t.startswith("std::") and "less" not in t):
            return True
    return False


def roots(f, cn, t, depth=0):
    """variables and calls that a pointer term is built from by pointer arithmetic"""
    out = set()
    st = [t]
    vi = core.varinfo(f)
    seen = set()
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, tuple):
            continue
        seen.add(x)
        if x[0] == "op" and x[1] in ("+", "-"):
            st.append(x[2])
            continue
        if x[0] == "v":
            g = vi.get(x[1])
            if g is not None and g.init is not None and g.decl is not None and f.N[g.init]["k"] not in ("Int", "Null"):
                st.append(cn(g.init))
                continue
        if x[0] in ("begin", "end", "rbegin", "rend"):
            st.append(("base", x[1]))
            continue
        if x[0] == "call" and x[2] is not None and str(x[1]).rsplit("::", 1)[-1] in ("data", "begin", "end", "cbegin", "cend"):
            st.append(("base", x[2]))
            continue
        out.add(x)
    return out


def same_array(f, cn, a, b):
    ra, rb = roots(f, cn, cn(a)), roots(f, cn, cn(b))
    return bool(ra & rb)


CONSTCLASS = {}


def static_use(f, v, t, decl):
    """a static or thread-local variable: '' if it cannot carry information from one call to the next"""
    tt = t.strip()
    if tt.startswith("const ") or tt.endswith(" const") or re.search(r"\bconst$", tt):
        return ""
    muts, reads = [], []
    vi = core.varinfo(f)
    g = vi.get(v["v"])
    if g is None or not g.muts:
        return ""
    # thread-local scratch: emptied before anything else is done with it
    wipes = []
    uses = []
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Call" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and f.N[n["o"]]["k"] == "Ref" and f.N[n["o"]].get("v") == v["v"]:
            last = n["fn"].rsplit("::", 1)[-1]
            if last in ("clear", "assign") or n.get("op") == "=":
                wipes.append(x)
                continue
            if last in ("reserve", "capacity"):
                continue
            uses.append(x)
        elif n["k"] == "Assign" and n.get("op") == "=" and f.N[n["c"][0]]["k"] == "Ref" and f.N[n["c"][0]].get("v") == v["v"]:
            wipes.append(x)
    sub = set()
    for w in wipes:
        sub |= set(f.walk(w))
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Ref" and n.get("v") == v["v"] and x not in sub:
            par = f.parents().get(x)
            if par is not None and f.N[par]["k"] == "Call" and f.N[par].get("o") == x and f.N[par]["fn"].rsplit("::", 1)[-1] in ("reserve", "capacity"):
                continue
            uses.append(x)
    if not [m for m in g.muts]:
        return ""
    if wipes and all(path.before(f, u, wipes) for u in uses):
        return ""
    if stateless(f.prog, t):
        return ""
    if v.get("tls"):
        # per-thread scratch that is only sized here: its contents are the business of whoever borrows it
        grow = [x for x in g.muts if not (f.N[x]["k"] == "Call" and f.N[x]["fn"].rsplit("::", 1)[-1] in ("resize", "reserve", "clear", "assign", "shrink_to_fit"))
                and f.N[x]["k"] != "Ret"]
        if not grow:
            return ""
    return "static variable %s keeps what an earlier call put into it" % v.get("n")


def stateless(prog, t):
    r = prog.R.get(core.strip_cv(t))
    return r is not None and not r["fields"] and all(b.startswith("std::") or stateless(prog, b) for b in r.get("bases", []))


# --------------------------------------------------------------------------- definite assignment
def uninit_classes(prog):
    """qualified class -> fields left without a value by default initialisation"""
    bad = {}
    recs = {}
    for name, r in prog.R.items():
        if r.get("dep"):
            continue
        recs[name] = r
    ups = set()
    for f in prog.F.values():
        if f.get("ctor") and not f.params and not f.get("defaulted"):
            ups.add(f.get("cls"))
    ch = True
    while ch:
        ch = False
        for name, r in recs.items():
            if name in bad or name.startswith("std::") or "lib_moment" not in r.get("file", ""):
                continue
            base = re.sub(r"<.*", "", name)
            if base in ups or name in ups:
                continue
            fl = [x["n"] for x in r["fields"] if not x.get("dinit") and (x.get("scalar") or arr_uninit(x["t"], bad))]
            if fl:
                bad[name] = fl
                ch = True
    return bad


def arr_uninit(t, bad):
    t = core.strip_cv(t)
    if t in bad:
        return True
    m = re.match(r"std::array<(.*), \d+>$", t)
    if m:
        return scalar(m.group(1)) or arr_uninit(m.group(1), bad)
    m = re.match(r"(.*)\[\d+\]$", t)
    if m:
        return scalar(m.group(1).strip()) or arr_uninit(m.group(1).strip(), bad)
    return False


def default_init(f, i):
    """initialiser node leaves scalars of a class without user-provided default constructor alone"""
    n = f.N[i]
    while n["k"] in ("Cast", "Paren", "Temp", "Bind", "Cleanup") and f.kids(i):
        i = f.kids(i)[0]
        n = f.N[i]
    return n["k"] == "Ctor" and n.get("sp") == "def" and n.get("triv") and not n.get("zi")


def locals_(prog, rep, bad):
    for f in prog.live():
        if not lib(f) or f.body < 0:
            continue
        todo = []
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Decl":
                continue
            for v in n["vars"]:
                if v.get("static") or v.get("binds"):
                    continue
                t = core.strip_cv(f.T[v["t"]])
                if core.is_ref(f.T[v["t"]]):
                    continue
                if "i" not in v:
                    if scalar(t) or arr_uninit(t, bad):
                        todo.append((v, i, t))
                elif default_init(f, v["i"]) and arr_uninit(t, bad):
                    todo.append((v, i, t))
        for v, d, t in todo:
            if f.parents().get(d) is not None and f.N[f.parents()[d]]["k"] in ("RangeFor",):
                continue
            writes, reads, partial = uses(f, v["v"])
            r = None
            for x in reads:
                if not path.before(f, x, writes + partial + filled(f, t, partial), start=d):
                    r = x
                    break
            key = "%s %s" % (f.name, v.get("n"))
            if r is None:
                rep.ok("assigned before use", key, f.loc(d))
            else:
                rep.bad("assigned before use", key, f.loc(r), "%s is read on a path on which nothing has been assigned to it since its declaration at %s" % (v.get("n"), f.loc(d)))


def filled(f, t, partial):
    """an array is filled element by element in loops: passing the loop counts as assigning it"""
    if not re.match(r"std::array<|.*\\[\\d+\\]$", t):
        return []
    out = []
    par = f.parents()
    for x in partial:
        p = par.get(x)
        while p is not None:
            if f.N[p]["k"] in ("For", "While", "Do", "RangeFor"):
                c = f.N[p].get("cond", -1)
                if c is not None and c >= 0:
                    out.append(c)
            p = par.get(p)
    return out


def uses(f, var):
    """(complete writes, reads, other possible writes) of a local variable"""
    W, R, P = [], [], []
    par = f.parents()
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Lambda":
            for c in n.get("caps", []):
                if c.get("v") == var:
                    (P if c.get("m") == "ref" else R).append(x)
        if n["k"] != "Ref" or n.get("v") != var:
            continue
        top, p = x, par.get(x)
        deep = False
        while p is not None and f.N[p]["k"] in ("Mem", "Sub", "Paren"):
            if f.N[p]["k"] == "Sub" and f.N[p]["c"][0] != top:
                break
            top, p, deep = p, par.get(p), True
        if p is None:
            continue
        m = f.N[p]
        if m["k"] == "Assign" and m["c"][0] == top and m.get("op") == "=":
            (P if deep else W).append(p)
        elif m["k"] == "Un" and m["op"] == "&":
            P.append(p)
        elif m["k"] == "Call" and m.get("o") == top and not m.get("mconst"):
            last = (m.get("fn") or "").rsplit("::", 1)[-1]
            (P if True else R).append(p)
        elif m["k"] in ("Call", "Ctor") and top in m.get("a", []):
            i = m["a"].index(top)
            pm = m.get("pm", "")
            if i < len(pm) and pm[i] == "m":
                P.append(p)
            else:
                R.append(x)
        elif m["k"] == "Cast" and m.get("cast") == "ToVoid":
            continue
        else:
            R.append(x)
    return W, R, P


def fields(prog, rep, bad):
    byname = {}
    for name, r in prog.R.items():
        byname.setdefault(name.split("@")[-1] if name.startswith("T:") else re.sub(r"<.*>", "", name), []).append(r)
    for f in prog.live():
        if not lib(f) or not f.get("ctor"):
            continue
        ini = f.get("inits") or []
        if any(x.get("deleg") for x in ini) or f.get("defaulted"):
            if not f.get("defaulted") or f.get("ctor") in COPYOPS or not any(default_init(f, x["i"]) for x in ini if x.get("fd")):
                continue
        cls = f.get("cls") or f.name.rsplit("::", 1)[0]
        inn = {x["fd"].rsplit("::", 1)[-1] for x in ini if x.get("fd")}
        cands = [r for r in byname.get(cls, []) if inn <= {x["n"] for x in r["fields"]}]
        if not cands:
            continue
        r = cands[0]
        common = set.intersection(*[{x["n"] for x in c["fields"]} for c in cands])
        if f.get("ctor") in COPYOPS and (f.get("defaulted") or not ini and f.body < 0):
            continue
        have = {x["fd"].rsplit("::", 1)[-1]: x["i"] for x in ini if x.get("fd")}
        for fd in r["fields"]:
            sc = fd.get("scalar") or scalar(fd["t"]) or fd["t"] in ("size_t", "ptrdiff_t")
            if not sc and not arr_uninit(fd["t"], bad) or fd["n"] not in common:
                continue
            key = "%s %s" % (f.name, fd["n"])
            if fd["n"] in have and (sc or not default_init(f, have[fd["n"]])):
                rep.ok("fields initialised", key, f.loc(have[fd["n"]]))
                continue
            if fd["n"] not in have and fd.get("dinit"):
                rep.ok("fields initialised", key, f.rel)
                continue
            if not sc:
                # two-phase construction: a part without values of its own is filled in by whoever owns the object
                miss = [x for x in parts(bad, fd["t"]) if not written_via(prog, cls, fd["n"], x)]
                if not miss:
                    rep.note("%s: %s gets its values after construction" % (f.name, fd["n"]))
                else:
                    rep.bad("fields initialised", key, f.rel, "this constructor leaves %s without a value, and nothing assigns it later" % ", ".join(fd["n"] + "." + x for x in miss))
                continue
            if f.get("defaulted"):
                rep.bad("fields initialised", key, f.rel, "the defaulted constructor leaves %s without a value" % fd["n"])
                continue
            if iterator_class(prog, cls) and fd["n"] not in compared(prog, cls):
                rep.note("%s: %s of an end iterator has no value (only fields that are compared need one)" % (f.name, fd["n"]))
                continue
            ws = field_writes(prog, f, fd["n"], 0)
            end_ok = f.body >= 0 and always(f, ws)
            rep.add(end_ok, "fields initialised", key, f.loc(f.body) if f.body >= 0 else f.rel,
                    "" if end_ok else "a path through this constructor ends without a value for the field %s" % fd["n"])


def parts(bad, t):
    t = core.strip_cv(t)
    return bad.get(t, ["[]"])


def written_via(prog, cls, field, sub):
    """some function assigns <object of cls>.field.sub (or the whole field)"""
    m = prog.__dict__.get("_via")
    if m is None:
        m = set()
        for g in prog.live():
            if not lib(g):
                continue
            for x in g.all_nodes():
                n = g.N[x]
                t = n["c"][0] if n["k"] == "Assign" and n.get("op") == "=" else n["o"] if n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0 else None
                if t is None:
                    continue
                _, fl, _ = core.lval_root(g, t)
                if fl:
                    m.add(tuple(fl[-2:]))
                    m.add((fl[-1],))
        prog.__dict__["_via"] = m
    return (field, sub) in m or (field,) in m and sub == "[]"


def iterator_class(prog, cls):
    m = prog.__dict__.get("_iterclasses")
    if m is None:
        m = set()
        for g in prog.F.values():
            if g.name.endswith("::operator++") and g.get("cls"):
                m.add(g.get("cls"))
        eq = {g.get("cls") for g in prog.F.values() if g.name.endswith("::operator==") and g.get("cls")}
        m &= eq
        prog.__dict__["_iterclasses"] = m
    return cls in m


def compared(prog, cls):
    out = set()
    for g in prog.F.values():
        if g.get("cls") == cls and g.name.rsplit("::", 1)[-1] in ("operator==", "operator!=", "operator<=>", "operator bool", "operator!"):
            for x in g.all_nodes():
                if g.N[x]["k"] == "Mem":
                    out.add(g.N[x]["n"])
    return out


def always(f, ws):
    """every path from the entry to the normal exit passes one of the nodes"""
    if not ws:
        return False
    ev = {p[0] for p in (path._pos(f, x) for x in ws) if p is not None}
    cfg = f.cfg
    st, seen = [cfg.entry], set()
    while st:
        b = st.pop()
        if b in seen or b in ev:
            continue
        seen.add(b)
        if b == cfg.exit:
            return False
        if b in cfg.throws:
            continue
        st.extend(cfg.succ[b])
    return True


def field_writes(prog, f, name, depth):
    out = []
    for x in f.all_nodes():
        n = f.N[x]
        k = n["k"]
        if k == "Assign" and n.get("op") == "=" or k == "Un" and n.get("op") == "&":
            r, fl, ptr = core.lval_root(f, n["c"][0])
            if r == "this" and fl and fl[0] == name:
                out.append(x)
        elif k == "Call":
            o = n.get("o", -1)
            tgt = prog.targets(n)
            onthis = o is not None and o >= 0 and f.N[o]["k"] == "This"
            if o is not None and o >= 0 and not n.get("mconst"):
                r, fl, ptr = core.lval_root(f, o)
                if r == "this" and fl and fl[0] == name:
                    out.append(x)
                    continue
            if onthis and tgt and depth < 4:
                if all(t in prog.F and prog.F[t].body >= 0 and always(prog.F[t], field_writes(prog, prog.F[t], name, depth + 1)) for t in tgt):
                    out.append(x)
                    continue
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("a", [])):
                if i < len(pm) and pm[i] == "m":
                    r, fl, ptr = core.lval_root(f, a)
                    if r == "this" and fl and fl[0] == name:
                        out.append(x)
                        break
    return out


# --------------------------------------------------------------------------- workers
def entries(prog):
    """functions that run as threads of their own"""
    out = {}
    for f in prog.live():
        if not lib(f):
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Ctor" and n.get("cls") in ("std::thread", "std::jthread") or n["k"] == "Call" and n.get("fn") == "std::async":
                for a in n.get("a", []):
                    for x in f.walk(a):
                        m = f.N[x]
                        if m["k"] == "Ref" and m.get("f") in prog.F:
                            out[m["f"]] = f.loc(i)
                        elif m["k"] == "Lambda" and m.get("f") in prog.F:
                            out[m["f"]] = f.loc(i)
    return out


def shared_field(prog, f, name):
    """is a field of the worker's class a reference or pointer to something outside the worker"""
    cls = f.get("cls") or ""
    for nm, r in prog.R.items():
        if (nm.split("@")[-1] if nm.startswith("T:") else nm) == cls:
            for x in r["fields"]:
                if x["n"] == name:
                    return bool(x.get("ref")) or core.is_ref(x["t"]) or core.is_ptr(x["t"]) or "shared_ptr" in x["t"] or "reference_wrapper" in x["t"] or "span<" in x["t"]
    return True


def workers(prog, rep):
    eff = effects.get(prog)
    for key, loc in sorted(entries(prog).items()):
        f = prog.F[key]
        for (root, fl), _ in sorted(eff.W.get(key, {}).items(), key=str):
            if root != "this" and not f.get("lambda"):
                continue
            if root == "this" and (not fl or not shared_field(prog, f, fl[0])):
                continue
            leafs = leaf(prog, eff, key, (root, fl))
            for g, nid in leafs:
                m = arrival(prog, g, nid)
                what = ".".join(x for x in fl if x != "[]")
                k = "%s <- %s" % (what, g.short)
                if m and settled(prog, eff, f, g, fl):
                    rep.ok("arrival order", k, g.loc(nid), "put into a settled order once all workers have finished")
                elif m:
                    rep.bad("arrival order", k, g.loc(nid), "%s, run by every worker of %s, %s, which all workers share: the outcome depends on which worker arrives first"
                            % (g.short, f.short, m % what))
                else:
                    rep.ok("arrival order", k, g.loc(nid))


def joins(prog):
    """functions that wait for worker threads, directly or through their callees"""
    m = prog.__dict__.get("_joins")
    if m is None:
        m = set()
        for f in prog.live():
            if any(f.N[x]["k"] == "Call" and (f.N[x].get("fn") or "").endswith("thread::join") for x in f.all_nodes()):
                m.add(f.key)
        ch = True
        while ch:
            ch = False
            for f in prog.live():
                if f.key in m or not lib(f):
                    continue
                for x in f.all_nodes():
                    n = f.N[x]
                    if n["k"] == "Call" and any(t in m for t in prog.targets(n)):
                        m.add(f.key)
                        ch = True
                        break
        prog.__dict__["_joins"] = m
    return m


def settled(prog, eff, f, g, fl):
    """after the workers have been joined, a method of the class that owns the shared storage replaces every sequence that they appended to"""
    cls = g.get("cls")
    if not cls or g.get("cls") == f.get("cls"):
        return False
    grown = set()
    for i, r, ff in eff.local_writes(g):
        n = g.N[i]
        if r == "this" and n["k"] == "Call" and (n.get("fn") or "").rsplit("::", 1)[-1] in GROW:
            grown.add(ff[0])
    if not grown:
        return False
    js = joins(prog)
    for h in prog.live():
        if h.get("cls") != cls or h.key == g.key or h.get("ctor") or h.get("dtor"):
            continue
        rep_ = set()
        for i in h.all_nodes():
            n = h.N[i]
            tgt = n["c"][0] if n["k"] == "Assign" and n.get("op") == "=" else n["o"] if n["k"] == "Call" and (n.get("op") == "=" or (n.get("fn") or "").endswith("::swap")) and n.get("o", -1) >= 0 else None
            if tgt is None:
                continue
            r, ff, _ = core.lval_root(h, tgt)
            if r == "this" and len(ff) == 1:
                rep_.add(ff[0])
        if not grown <= rep_:
            continue
        # called after a join, on every path to the normal end of the spawning function
        for s in prog.live():
            if not lib(s):
                continue
            cs = [x for x in s.all_nodes() if s.N[x]["k"] == "Call" and h.key in prog.targets(s.N[x])]
            jn = [x for x in s.all_nodes() if s.N[x]["k"] == "Call" and any(t in js for t in prog.targets(s.N[x]))]
            gone = [x for x in s.all_nodes() if s.N[x]["k"] == "Throw" or s.N[x]["k"] == "Call" and s.N[x].get("fn") in ("std::rethrow_exception", "std::terminate", "std::abort")]
            if cs and jn and all(path.before(s, c, jn) for c in cs) and all(path.after(s, j, cs + gone) for j in jn):
                return True
    return False


def leaf(prog, eff, key, e, seen=None):
    """functions and nodes at which an effect of a function happens"""
    seen = seen if seen is not None else set()
    out = []
    if (key, e) in seen:
        return out
    seen.add((key, e))
    x = eff.W.get(key, {}).get(e)
    if x is None:
        return out
    nid, via = x
    f = prog.F[key]
    if via is None:
        # all direct writes of this function to the same place
        for i, r, fl in eff.local_writes(f):
            if (r, fl) == e:
                out.append((f, i))
        return out
    return leaf(prog, eff, via[0], (via[1], via[2]), seen)


def arrival(prog, f, nid):
    n = f.N[nid]
    if not lib(f):
        return None
    if n["k"] == "Call":
        last = (n.get("fn") or "").rsplit("::", 1)[-1]
        t = f.ty(n["o"]) if n.get("o", -1) is not None and n.get("o", -1) >= 0 else ""
        if last in GROW and "SmallVector" not in n.get("fn", ""):
            return "appends to %s"
        if last in ("insert", "emplace", "try_emplace") and not re.search(r"std::(multi)?(set|map)<", t):
            return "inserts into %s"
        if last in ("fetch_add", "fetch_sub", "operator++") and "atomic" in t + n.get("fn", ""):
            p = f.parents().get(nid)
            cn = core.Canon(f)
            if numbered(f, nid):
                return "numbers things with %s"
        return None
    if n["k"] == "Un" and n["op"] in ("++", "--") or n["k"] == "Assign" and n.get("op") in ("+=", "-="):
        t = core.strip_cv(f.ty(n["c"][0]))
        ln = f.N[n["c"][0]]
        if core.is_int_type(t) and (ln["k"] == "Mem"):
            return "counts with %s"
    return None


def numbered(f, nid):
    """is the value of an atomic increment stored as data (rather than used to pick the next piece of work)?"""
    par = f.parents()
    p = par.get(nid)
    while p is not None and f.N[p]["k"] in ("Cast", "Paren", "Cleanup", "Temp"):
        p = par.get(p)
    if p is None or f.N[p]["k"] in ("Compound", "If", "While", "For", "Do"):
        return False
    var = None
    if f.N[p]["k"] == "Decl":
        var = next((v["v"] for v in f.N[p]["vars"] if "i" in v and nid in set(f.walk(v["i"]))), None)
    elif f.N[p]["k"] == "Assign" and f.N[f.N[p]["c"][0]]["k"] == "Ref":
        var = f.N[f.N[p]["c"][0]].get("v")
    if var is None:
        return f.N[p]["k"] in ("Ret", "Assign", "Ctor", "Call")
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Ref" and n.get("v") == var:
            q = par.get(x)
            while q is not None and f.N[q]["k"] in ("Cast", "Paren"):
                q = par.get(q)
            if q is not None and (f.N[q]["k"] in ("Ret", "Ctor") or f.N[q]["k"] == "Assign" and f.N[q]["c"][0] != x and x in set(f.walk(f.N[q]["c"][1])) and f.N[f.N[q]["c"][1]]["k"] in ("Ref", "Cast")):
                return True
    return False


def check(prog, rep, tier):
    sources(prog, rep)
    bad = uninit_classes(prog)
    locals_(prog, rep, bad)
    fields(prog, rep, bad)
    workers(prog, rep)
    rep.floor("sources", 500)
    rep.floor("fields initialised", 50)
    rep.floor("arrival order", 5)
