"""C01: shared state is touched only under the owning object's lock."""
import re
import core, effects, locks, path, pp
from locks import R, W, norm, subst

RULE = ("every write to a field shared between threads happens while the exclusive lock of the object that owns it is held (or the caller proved it holds it by passing the lock), and every "
        "read in an operation that takes that lock happens while it is held; what is passed as proof of a lock is a lock of that very object, held at the call")
TECHNIQUE = "lock-set dataflow on the control flow graph with object paths, field guards, and propagation of unmet needs up the call graph to the entry points"
LEVEL = "abstraction"

M = "Moment::"
# field -> (path from the object that has the field to the object that owns the mutex, mutex)
THIS = ("this",)
GUARD = {
    M + "Dictionary::osgs": (THIS, "rw"),
    M + "Dictionary::npa_level_to_offset": (THIS, "rw"),
    M + "Pauli::PauliDictionary::nn_indices": (THIS, "rw"),
    M + "DictionaryMap::symbol_map": (THIS, "rw"),
    M + "Symmetrized::Group::representations": (THIS, "rw"),
    M + "Multithreading::TemporarySymbolsAndFactors::new_factors": (THIS, "rw"),
    M + "Multithreading::TemporarySymbolsAndFactors::new_op_seqs": (THIS, "rw"),
    M + "Multithreading::TemporarySymbolsAndFactors::index_tree": (THIS, "rw"),
    M + "Multithreading::TemporarySymbolsAndFactors::next_symbol_id": (THIS, "rw"),
    M + "MaintainsTensors::collinsGisin": (THIS, "rw"),
    M + "MaintainsTensors::fullCorrelator": (THIS, "rw"),
    M + "MaintainsTensors::probabilityTensor": (THIS, "rw"),
    M + "MatrixSystem::matrices": (THIS, "rw"),
    M + "MatrixSystem::symbol_table": (THIS, "rw"),
    M + "MatrixIndices::indices": ((".", THIS, "system"), "rw"),
    M + "RulebookStorage::rulebooks": ((".", THIS, "system"), "rw"),
    M + "Symmetrized::Group::mappers": (THIS, "rw"),
    M + "DictionaryMap::symbol_map_max_length": (THIS, "rw"),
    M + "Inflation::InflationMatrixSystem::factors": (THIS, "rw"),
    M + "MatrixBasis::MatrixBasisImpl::done": ((".", THIS, "basis"), "mutex"),
    M + "CollinsGisin::missing_symbols": (THIS, "symbol_mutex"),
    M + "PersistentStorageMonoid::the_object": (THIS, "theMutex"),
    M + "PersistentStorage::objects": (THIS, "theMutex"),
    M + "PersistentStorage::nextID": (THIS, "theMutex"),
    M + "MatrixBasis::MatrixBasisImpl::re": ((".", THIS, "basis"), "mutex"),
    M + "MatrixBasis::MatrixBasisImpl::im": ((".", THIS, "basis"), "mutex"),
    M + "Multithreading::Queue::head": (THIS, "head_mutex"),
    M + "Multithreading::Queue::tail": (THIS, "tail_mutex"),
}
MUT_STD = {"operator=", "reset", "swap", "assign", "clear", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "pop_back", "pop_front", "insert",
           "insert_or_assign", "try_emplace", "emplace_hint", "erase", "resize", "reserve", "shrink_to_fit", "merge", "extract", "splice", "sort", "remove", "remove_if", "unique",
           "operator+=", "operator-=", "operator++", "operator--", "store", "exchange", "append", "release"}


def base_name(fd):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", fd or "")))


class Guards:
    def __init__(self, prog):
        self.prog = prog
        self.L = locks.get(prog)
        self.E = effects.get(prog)
        self.acc = {}       # f.key -> [(nid, owner, mode, field)]
        self.calls = {}     # g.key -> [(caller, node)]
        for f in prog.live():
            if f.body < 0 and not f.get("inits"):
                continue
            self.acc[f.key] = self.accesses(f)
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] in ("Call", "Ctor"):
                    for t in prog.targets(n):
                        self.calls.setdefault(t, []).append((f, i))
                elif n["k"] == "Lambda" and n.get("f"):
                    self.calls.setdefault(n["f"], []).append((f, i))

    def mems(self, f, i):
        """guarded fields an lvalue expression goes through (not inside call arguments)"""
        out = []
        vi = core.varinfo(f)
        seen = set()

        def go(x, d):
            if x is None or x < 0 or x in seen or d > 20:
                return
            seen.add(x)
            n = f.N[x]
            if n["k"] == "Mem":
                b = base_name(n.get("fd"))
                if b in GUARD:
                    out.append((x, b))
                for c in f.kids(x):
                    go(c, d + 1)
            elif n["k"] == "Ref":
                g = vi.get(n.get("v"))
                if g is not None and (core.is_ref(g.t) or core.is_ptr(g.t) or self.E.handle_type(g.t)):
                    if g.init is not None:
                        go(g.init, d + 1)
                    elif g.rangevar is not None:
                        rf = f.N[g.rangevar] if isinstance(g.rangevar, int) else None
                        if rf is not None:
                            go(rf.get("range"), d + 1)
            elif n["k"] == "Call":
                o = n.get("o", -1)
                if o is not None and o >= 0:
                    go(o, d + 1)
                elif n.get("a") and n.get("fn") in ("std::move", "std::forward", "std::get", "std::as_const"):
                    go(n["a"][0], d + 1)
            elif n["k"] in ("Cond",):
                for c in n["c"][1:]:
                    go(c, d + 1)
            else:
                ks = f.kids(x)
                if n["k"] in ("Sub", "Bin"):
                    ks = ks[:1]
                for c in ks[:1] if n["k"] in ("Sub", "Bin") else ks:
                    go(c, d + 1)
        go(i, 0)
        return out

    def owner(self, f, mem, b):
        """lock that guards the field reached by Mem node mem"""
        suf, mx = GUARD[b]
        ks = f.kids(mem)
        obj = norm(self.L.canon(f)(ks[0])) if ks else THIS
        return (self.L.simp(norm(subst(suf, obj))), mx)

    def accesses(self, f):
        writes = {}
        for i in f.all_nodes():
            n = f.N[i]
            k = n["k"]
            tg = []
            if k == "Assign" or (k == "Un" and n["op"] in ("++", "--")):
                tg = [n["c"][0]]
            elif k == "Delete":
                tg = list(f.kids(i))[:1]
            elif k in ("Call", "Ctor"):
                o = n.get("o", -1)
                last = n.get("fn", "").rsplit("::", 1)[-1]
                inprog = [t for t in self.prog.targets(n)]
                if o is not None and o >= 0:
                    if inprog:
                        if any(e[0] == "this" for t in inprog for e in self.E.W.get(t, {})):
                            tg.append(o)
                    elif not n.get("mconst") and last in MUT_STD:
                        tg.append(o)
                    elif not n.get("mconst") and last == "operator[]" and re.search(r"\bmap<", f.ty(o) or ""):
                        tg.append(o)
                pm = n.get("pm", "")
                for j, a in enumerate(n.get("a", []) or []):
                    if inprog:
                        if any(e[0] == j for t in inprog for e in self.E.W.get(t, {})):
                            tg.append(a)
                    elif j < len(pm) and pm[j] == "m" and n.get("fn") not in core.TRANSPARENT and n.get("fn") not in ("std::move", "std::forward", "std::get"):
                        tg.append(a)
                    if n.get("fn") == "std::move":
                        tg.append(a)
            for t in tg:
                for mem, b in self.mems(f, t):
                    # base chain of an access to a deeper guarded field counts as a write of the innermost one only
                    writes.setdefault((mem, b), i)
        out = []
        inner = set()
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Mem" and base_name(n.get("fd")) in GUARD:
                b = base_name(n["fd"])
                out.append((i, self.owner(f, i, b), R, b))
        for (mem, b), at in writes.items():
            out.append((at, self.owner(f, mem, b), W, b))
        return out

    def held(self, f, nid, owner, mode):
        s = self.L.info(f)
        for own, m, v in s.at(nid):
            if (own is None or self.same(own, owner)) and (m == W or mode == R):
                return True
        if f.get("lambda"):
            p = self.prog.F.get(f.get("parent"))
            if p is not None:
                for i in p.all_nodes():
                    if p.N[i]["k"] == "Lambda" and p.N[i].get("f") == f.key:
                        return self.held(p, i, owner, mode)
        return False

    def same(self, a, b):
        return a == b or (self.L.simp(a[0]), a[1]) == b or (a[1] == "*" and a[0] == b[0])

    def fresh(self, f, owner):
        """the object is not shared yet: under construction or destruction, or a local value"""
        t = owner
        while isinstance(t, tuple) and t and t[0] in (".", "idx", "elem"):
            t = t[1]
        if t == THIS and (f.get("ctor") or f.get("dtor")):
            return True
        if isinstance(t, tuple) and t[0] == "v":
            for p in f.params:
                if p["v"] == t[1] and f.T[p["t"]].endswith("&&"):
                    return True          # handed over by its only user
            g = core.varinfo(f).get(t[1])
            if g is not None and g.decl is not None and not core.is_ref(g.t) and not core.is_ptr(g.t) and "ptr" not in g.t:
                return True
        if isinstance(t, tuple) and t[0] in ("ctor", "new"):
            return True
        return False

    def needs(self):
        """{f.key: {(owner, mode): (nid, field, via)}} accesses whose lock is not held inside f"""
        N = {}
        work = []
        for k, acc in self.acc.items():
            f = self.prog.F[k]
            for nid, (obj, mx), mode, b in acc:
                if self.held(f, nid, (obj, mx), mode) or self.fresh(f, obj):
                    continue
                d = N.setdefault(k, {})
                if ((obj, mx), mode) not in d:
                    d[((obj, mx), mode)] = (nid, b, None)
                    work.append((k, (obj, mx), mode))
        while work:
            k, (obj, mx), mode = work.pop()
            g = self.prog.F[k]
            for f, i in self.calls.get(k, []):
                n = f.N[i]
                o2 = self.up(f, n, g, obj)
                if o2 is None:
                    continue
                if self.held(f, i, (o2, mx), mode) or self.fresh(f, o2):
                    continue
                d = N.setdefault(f.key, {})
                if ((o2, mx), mode) not in d and len(d) < 40:
                    d[((o2, mx), mode)] = (i, N[k][((obj, mx), mode)][1], k)
                    work.append((f.key, (o2, mx), mode))
        return N

    def up(self, f, n, g, obj):
        cn = self.L.canon(f)
        pr = {p["v"]: j for j, p in enumerate(g.params)}

        def sub(t):
            if t == THIS:
                if n["k"] == "Lambda":
                    return THIS
                o = n.get("o", -1)
                if n["k"] == "Ctor" or o is None or o < 0:
                    return None
                return norm(cn(o))
            if isinstance(t, tuple) and t and t[0] == "v":
                if t[1] in pr:
                    a = n.get("a", [])
                    return norm(cn(a[pr[t[1]]])) if pr[t[1]] < len(a) else None
                return t if n["k"] == "Lambda" else None
            if isinstance(t, tuple) and t and t[0] in (".", "idx", "elem"):
                b = sub(t[1])
                return None if b is None else norm((t[0], b) + t[2:])
            return None
        r = sub(obj)
        if r is not None:
            r = self.L.simp(r)
        if r is not None and (depth(r) > 6 or '"lambda"' in str(r).replace("'", '"')):
            return None
        return r


def depth(t):
    return 1 + max([depth(x) for x in t if isinstance(x, tuple)] or [0]) if isinstance(t, tuple) else 0


def show(o):
    t, mx = o if isinstance(o, tuple) and len(o) == 2 else (o, "")
    def s(t):
        if t == THIS:
            return "this"
        if t[0] == ".":
            return s(t[1]) + "." + t[2]
        if t[0] == "v":
            return t[1].split("#")[0]
        return str(t)[:40]
    return s(t) + ("" if mx == "rw" else "." + mx)


def get(prog):
    g = prog.__dict__.get("_guards")
    if g is None:
        g = prog.__dict__["_guards"] = Guards(prog)
    return g



# fields every reader of which holds the lock (atomics and single-owner phases excepted)
STRICT = {M + x for x in ("Dictionary::npa_level_to_offset", "Pauli::PauliDictionary::nn_indices", "DictionaryMap::symbol_map", "Symmetrized::Group::representations",
                          "CollinsGisin::missing_symbols", "PersistentStorageMonoid::the_object", "PersistentStorage::objects", "PersistentStorage::nextID",
                          "Multithreading::TemporarySymbolsAndFactors::new_factors", "Multithreading::TemporarySymbolsAndFactors::new_op_seqs",
                          "Multithreading::TemporarySymbolsAndFactors::index_tree", "Multithreading::TemporarySymbolsAndFactors::next_symbol_id",
                          "Multithreading::Queue::head", "Multithreading::Queue::tail")}
ATOMIC = {M + "DictionaryMap::symbol_map_max_length", M + "MatrixBasis::MatrixBasisImpl::done"}
# entry points that own the object alone when they run: the worker threads that share it have been joined / it is documented as unlocked
ALONE = {(M + "Multithreading::TemporarySymbolsAndFactors::register_new_symbols_and_factors", "Multithreading::TemporarySymbolsAndFactors"),
         (M + "Multithreading::ExtendedMatrixBundle::execute", "Multithreading::TemporarySymbolsAndFactors"),
         (M + "CollinsGisin::MissingSymbols", "CollinsGisin"),
         (M + "errors::BadCGError::make_missing_err", "CollinsGisin"),
         (M + "Multithreading::Queue::consistent_tail", "Multithreading::Queue")}


def shared_class(b):
    return b[len(M):].rsplit("::", 1)[0]


def chain(prog, N, k, key, depth=6):
    out = []
    own, mode = key
    while k and depth:
        depth -= 1
        d = N.get(k, {})
        e = d.get((own, mode))
        f = prog.F[k]
        if e is None:
            # owner was renamed on the way up: any need of the same mode and field
            e = next((v for (o, m), v in d.items() if m == mode), None)
            if e is None:
                break
        nid, b, via = e
        out.append("%s (%s)" % (f.short, f.loc(nid)))
        k = via
    return " -> ".join(out)


def entry(prog, G, f, mode):
    """may be called by a user of the library with no lock held"""
    if f.get("lambda"):
        return False
    if f.get("acc") in ("private", "protected"):
        return False
    return not (core.newly(f) and called(prog, f))


def called(prog, f):
    s = prog.__dict__.get("_c01called")
    if s is None:
        s = prog.__dict__["_c01called"] = {t for g in prog.live() for i in g.all_nodes() if g.N[i]["k"] in ("Call", "Ctor") for t in prog.targets(g.N[i])}
    return f.key in s


def writes(prog, G, N, rep):
    done = 0
    bad_at = set()
    for k, d in sorted(N.items()):
        f = prog.F[k]
        for (own, mode), (nid, b, via) in d.items():
            if mode != W or not entry(prog, G, f, mode):
                continue
            if b in ATOMIC or (f.name, shared_class(b)) in ALONE:
                continue
            if len(locks_path(own[0])) > 3:
                continue
            if via is not None and entry(prog, G, prog.F[via], W) and any(m == W for (o, m) in N.get(via, {})) and (via in bad_at or True) and reported(prog, N, via, G):
                continue
            bad_at.add(k)
            rep.bad("write-locked", "%s|%s" % (f.short, b[len(M):]), f.loc(nid), "%s changes `%s` while no exclusive lock of %s is held: %s" % (f.short, b.rsplit("::", 1)[-1], show(own), chain(prog, N, k, (own, mode))))
    for k, acc in G.acc.items():
        f = prog.F[k]
        for nid, own, mode, b in acc:
            if mode == W:
                done += 1
                if k not in bad_at:
                    rep.ok("write-locked", "%s|%s|%s" % (f.short, b[len(M):], f.loc(nid)), f.loc(nid), "")


def reported(prog, N, k, G):
    """the callee itself is reported already"""
    f = prog.F[k]
    return entry(prog, G, f, W) and any(m == W and (f.name, shared_class(v[1])) not in ALONE for (o, m), v in N.get(k, {}).items())


def locks_path(t):
    out = []
    while isinstance(t, tuple) and t and t[0] in (".", "idx", "elem"):
        out.append(t[2] if t[0] == "." else t[0])
        t = t[1]
    return out


def reads(prog, G, N, rep):
    L = G.L
    for k, f in prog.F.items():
        if f.get("dep") or k not in G.acc:
            continue
        s = L.info(f)
        locked = set()
        if not s.empty:
            for v, x in s.vars.items():
                if x[0] is not None:
                    locked.add((L.simp(x[0][0]), x[0][1]))
            for v, x in s.params.items():
                if x[2] and x[0] is not None:
                    locked.add(x[0])
        d = N.get(k, {})
        for own in locked:
            key = "%s|%s" % (f.short, show(own))
            e = d.get((own, R))
            if e is not None and e[1] not in ATOMIC and not (e[1].startswith(M + "MatrixBasis::") and guarded_by_flag(f, e[0])):
                rep.bad("read-locked", key, f.loc(e[0]), "%s takes the lock of %s but reads `%s` while it is not held: %s" % (f.short, show(own), e[1].rsplit("::", 1)[-1], chain(prog, N, k, (own, R))))
            else:
                rep.ok("read-locked", key, f.loc(), "")
        # every reader of these fields locks
        if not entry(prog, G, f, R):
            continue
        for (own, mode), (nid, b, via) in d.items():
            if mode != R or own in locked:
                continue
            if b in STRICT and (f.name, shared_class(b)) not in ALONE and not (via and reported_read(prog, N, via, G)):
                rep.bad("reader-locks", "%s|%s" % (f.short, b[len(M):]), f.loc(nid), "%s reads `%s` without the lock of %s: %s" % (f.short, b.rsplit("::", 1)[-1], show(own), chain(prog, N, k, (own, mode))))
    for k, acc in G.acc.items():
        f = prog.F[k]
        n = sum(1 for nid, own, mode, b in acc if b in STRICT and mode == R)
        if n and not any(m == R and v[1] in STRICT for (o, m), v in N.get(k, {}).items()):
            rep.ok("reader-locks", "%s|all" % f.short, f.loc(), "%d reads" % n)


def reported_read(prog, N, k, G):
    f = prog.F[k]
    return entry(prog, G, f, R) and any(m == R and v[1] in STRICT for (o, m), v in N.get(k, {}).items())


def guarded_by_flag(f, nid):
    """reached only after the published flag was seen"""
    F = core.Facts(f)
    for l in F.at(nid) or ():
        if "done" in str(l):
            return True
    return False


def other_system(prog, G, N, rep):
    """state of another system is read only with that system's lock"""
    L = G.L
    for k, d in sorted(N.items()):
        f = prog.F[k]
        cls = re.sub(r"<.*", "", f.get("cls") or "")
        if not cls or not L.is_mutexed(cls):
            continue
        names = {y["n"] for y in L.fields(cls) if "ptr<" in y["t"] and L.is_mutexed(L.cls_of_type(re.sub(r"^std::\w+_ptr<(.*)>$", r"\1", core.strip_cv(y["t"]).split(",")[0].rstrip(">") + ">")))}
        for (own, mode), (nid, b, via) in d.items():
            t = own[0]
            if t[0] == "." and t[1] == THIS and t[2] in names and b.rsplit("::", 1)[-1] in ("indices", "matrices", "rulebooks") and via:
                vf = prog.F[via]
                if any(o[0] in (THIS, (".", THIS, "system")) and v[1] == b for (o, m), v in N.get(via, {}).items()):
                    rep.bad("other-system", "%s|%s" % (f.short, b[len(M):]), f.loc(nid), "%s reads `%s` of %s without that system's lock: %s" % (f.short, b.rsplit("::", 1)[-1], show(own), chain(prog, N, k, (own, mode))))
    # discharged: calls into another system made with its lock
    for k in G.acc:
        f = prog.F[k]
        cls = re.sub(r"<.*", "", f.get("cls") or "")
        if not (cls and L.is_mutexed(cls)) and not f.get("lambda"):
            continue
        s = L.info(f)
        if s.empty:
            continue
        for v, x in s.vars.items():
            if x[0] is not None and x[0][0] not in (THIS,) and x[0][1] == "rw":
                rep.ok("other-system", "%s|%s" % (f.short, show(x[0])), f.loc(), "")


def evidence(prog, G, rep):
    """a lock passed along is held, and is a lock of the system the callee works on"""
    L = G.L
    for k in list(G.acc):
        f = prog.F[k]
        s = L.info(f)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] not in ("Call", "Ctor"):
                continue
            for t in prog.targets(n)[:1]:
                g = prog.F[t]
                if g.name.rsplit("::", 1)[-1].startswith("is_locked_"):
                    continue
                for j, p in enumerate(g.params):
                    ty = g.T[p["t"]]
                    m = locks.lock_kind(ty)
                    if not m or not core.is_ref(ty) or j >= len(n.get("a", [])):
                        continue
                    key = "%s|%s|%s" % (f.short, g.short, f.loc(i))
                    a = n["a"][j]
                    v = s.var(a) if not s.empty else None
                    if v is None or (v not in s.vars and v not in s.params):
                        rep.note("evidence", "%s passes a lock in a form not followed (%s)" % (key, pp.ex(f, a)[:40]))
                        continue
                    held = [(own, md) for own, md, vv in s.at(i) if vv == v]
                    if not held:
                        if f.get("lambda"):
                            continue
                        rep.bad("evidence", key, f.loc(i), "%s passes `%s` to %s as a held lock, but it is not held there on every way" % (f.short, pp.ex(f, a), g.short))
                        continue
                    own = held[0][0]
                    home = L.home(g)
                    want = G.up(f, n, g, home) if home else None
                    if own is None or want is None:
                        rep.ok("evidence", key, f.loc(i), "held")
                        continue
                    o = L.simp(own[0])
                    if o != want and related(prog, f, o, want):
                        rep.bad("evidence", key, f.loc(i), "%s passes a lock of %s to %s, which works on %s" % (f.short, show((o, "rw")), g.short, show((want, "rw"))))
                    else:
                        rep.ok("evidence", key, f.loc(i), "held, same object")


def related(prog, f, a, b):
    """two different known objects: paths of plain fields from the same or different roots"""
    ra, rb = a, b
    for t in (a, b):
        x = t
        while isinstance(x, tuple) and x[0] == ".":
            x = x[1]
        if x != THIS and x[0] != "v":
            return False
    # `param` versus `this.field`: may be the same object
    def root(x):
        while x[0] == ".":
            x = x[1]
        return x
    return root(a) == root(b) == THIS


def accessors(prog, rep):
    L = locks.get(prog)
    for nm, kind in (("get_read_lock", R), ("get_write_lock", W)):
        for f in prog.find("Moment::MaintainsMutex::" + nm, need=False):
            for i in f.all_nodes():
                if f.N[i]["k"] == "Return" and f.kids(i):
                    m = L.made(f, f.kids(i)[0])
                    if m is None:
                        rep.note("accessor", "%s builds its lock in a form not followed" % f.short)
                        continue
                    good = m[1] == kind and m[2] and m[0] is not None and m[0][0] == THIS
                    rep.add(good, "accessor", f.short, f.loc(i), "" if good else "%s does not return a held %s lock of this object" % (f.short, "shared" if kind == R else "exclusive"))
    for nm in ("is_locked_read_lock", "is_locked_write_lock"):
        for f in prog.find("Moment::MaintainsMutex::" + nm, need=False):
            r = core.simple_return(f)
            if r is None:
                rep.note("accessor", "%s: not a single expression" % f.short)
                continue
            out = set()
            core.literals(L.canon(f)(r), True, out)
            txt = [str(x) for x in out]
            same = any("rwMutex" in x and "mutex" in x.replace("rwMutex", "") and ("'=='" in x or "eq" in x) for x in txt)
            own = any("owns_lock" in x for x in txt)
            rep.add(same and own, "accessor", f.short, f.loc(), "" if same and own else "%s accepts a lock that is not %s" % (f.short, "of this object's mutex" if not same else "held"))


def check(prog, rep, tier):
    G = get(prog)
    N = G.needs()
    accessors(prog, rep)
    writes(prog, G, N, rep)
    reads(prog, G, N, rep)
    other_system(prog, G, N, rep)
    evidence(prog, G, rep)


if __name__ == "__main__":
    import ir
    p = ir.load()
    G = get(p)
    for k, acc in sorted(G.acc.items()):
        f = p.F[k]
        for nid, own, mode, b in acc:
            if mode == W:
                print("W", f.short[:60], f.loc(nid).rsplit("/", 1)[-1], b.rsplit("::", 1)[-1], show(own), "held" if G.held(f, nid, own, W) else "fresh" if G.fresh(f, own[0]) else "-")
    N = G.needs()
    print("---- unmet")
    for k, d in N.items():
        f = p.F[k]
        for (own, mode), (nid, b, via) in d.items():
            print(mode, f.short, f.loc(nid).rsplit("/", 1)[-1], b.rsplit("::", 1)[-1], show(own), "via " + p.F[via].short if via else "", "callers", len(G.calls.get(k, [])), f.get("acc"))
