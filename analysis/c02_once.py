"""C02: a creation decided by a look-up is decided again once the exclusive lock is held."""
import re
import core, locks, path, pp
import c01_guard as g1
from locks import R, W, norm, subst

RULE = ("after the exclusive lock is taken every path to the write that publishes the item passes a branch that reads the guarded state again; nothing looked up before the lock was taken "
        "(iterator, index, flag, reference into a growing array) is used afterwards; the key looked up is the key inserted; a published pointer is set only where it was just seen empty; the 'ready' flag is stored last, with release order, and read with acquire order")
TECHNIQUE = "lock-set dataflow plus must-pass path search from the acquisition to the publishing write, staleness of values across the acquisition, guarded by field ownership"
LEVEL = "abstraction"
M = "Moment::"

PTRS = {M + x for x in ("MaintainsTensors::collinsGisin", "MaintainsTensors::fullCorrelator", "MaintainsTensors::probabilityTensor",
                        "PersistentStorageMonoid::the_object", "Symmetrized::Group::representations", "Symmetrized::Group::mappers")}
FLAGS = {M + "MatrixBasis::MatrixBasisImpl::done": ("re", "im"), M + "DictionaryMap::symbol_map_max_length": ("symbol_map",)}
INDEX = {M + x for x in ("Dictionary::npa_level_to_offset", "Pauli::PauliDictionary::nn_indices", "MatrixIndices::indices",
                         "Multithreading::TemporarySymbolsAndFactors::index_tree")}
FIND = {"find", "contains", "count", "find_index", "find_node", "find_node_or_return_hint", "lower_bound", "at"}
PUT = {"insert", "emplace", "try_emplace", "insert_or_assign", "add", "emplace_hint"}


class Once:
    def __init__(self, prog):
        self.prog = prog
        self.G = g1.get(prog)
        self.N = self.G.needs()
        self.L = self.G.L
        self.unchecked = {}

    def reads(self, f):
        """{nid: {(owner, field)}} guarded state each node reads, directly or through a call"""
        m = self.__dict__.setdefault("_rd", {})
        if f.key not in m:
            out = {}
            for nid, own, mode, b in self.G.acc.get(f.key, ()):
                out.setdefault(nid, set()).add((own, b))
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call":
                    for t in self.prog.targets(n):
                        for (own, mode), v in self.N.get(t, {}).items():
                            o2 = self.G.up(f, n, self.prog.F[t], own[0])
                            if o2 is not None:
                                out.setdefault(i, set()).add(((o2, own[1]), v[1]))
            m[f.key] = out
            # a node of a guarded tree, reached through a pointer kept from an earlier look-up (the nodes of the tree do not move)
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and re.search(r"::IndexTree(<.*>)?::", n.get("fn", "")):
                    x = strip(f, n["o"])
                    while f.N[x]["k"] == "Un" and f.kids(x):
                        x = strip(f, f.kids(x)[0])
                    if f.N[x]["k"] == "Ref":
                        for d in defs(f, f.N[x].get("v")):
                            for j in f.walk(d):
                                for own, b in list(out.get(j, ())):
                                    if b in INDEX:
                                        out.setdefault(i, set()).add((own, b))
        return m[f.key]

    def cond_reads(self, f, c, ok=lambda i: True, depth=0, seen=None):
        """guarded state a condition depends on, through locals whose defining node passes ok"""
        seen = set() if seen is None else seen
        out = set()
        rd = self.reads(f)
        vi = core.varinfo(f)
        for j in f.walk(c):
            if j in rd and ok(j):
                out |= rd[j]
            n = f.N[j]
            if n["k"] == "Ref" and n.get("v") in vi and n["v"] not in seen:
                seen.add(n["v"])
                v = vi[n["v"]]
                for d in defs(f, n["v"]):
                    if ok(d):
                        out |= self.cond_reads(f, d, ok, depth + 1, seen)
        return out

    def acquisitions(self, f):
        s = self.L.info(f)
        out = []
        if s.empty:
            return out
        for i, evs in s.ev.items():
            for v, h in evs:
                x = s.vars.get(v)
                if h and x and x[1] == W and x[0] is not None:
                    out.append((i, (self.L.simp(x[0][0]), x[0][1])))
        return out

    def publishes(self, f):
        """[(node, owner, field)] writes that put something into guarded state: the target is the guarded object itself, not what it points to"""
        m = self.__dict__.setdefault("_pb", {})
        if f.key in m:
            return m[f.key]
        out = []
        for nid, own, mode, b in self.G.acc.get(f.key, ()):
            if mode != W:
                continue
            n = f.N[nid]
            tgt = None
            if n["k"] == "Assign":
                tgt = n["c"][0]
            elif n["k"] == "Call" and n.get("o", -1) is not None and n.get("o", -1) >= 0:
                if n.get("fn", "").rsplit("::", 1)[-1] in ("reserve", "erase", "clear", "shrink_to_fit", "pop_back", "set_factory", "set_name", "renumber"):
                    continue
                tgt = n["o"]
                if n.get("fn", "").rsplit("::", 1)[-1] == "reset" and not [a for a in n.get("a", []) if f.N[a]["k"] != "DefaultArg"]:
                    continue
            if tgt is None:
                for a in (n.get("a", []) or []):     # handed by reference to a function that fills it
                    x = strip(f, a)
                    if f.N[x]["k"] == "Mem" and g1.base_name(f.N[x].get("fd")) == b and n.get("fn") not in ("std::move",):
                        out.append((nid, own, b))
                continue
            x = strip(f, tgt)
            while f.N[x]["k"] == "Sub" or (f.N[x]["k"] == "Call" and f.N[x].get("op") == "[]"):
                x = strip(f, f.kids(x)[0])
            if f.N[x]["k"] == "Mem" and g1.base_name(f.N[x].get("fd")) == b:
                out.append((nid, own, b))
        m[f.key] = out
        return out

    def points(self, f, owner=None):
        """publishing writes of f incl. calls of functions that publish without checking themselves"""
        out = [(n, o, b) for n, o, b in self.publishes(f)]
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call":
                continue
            for t in self.prog.targets(n):
                for (own, b) in self.unchecked.get(t, ()):
                    o2 = self.G.up(f, n, self.prog.F[t], own[0])
                    if o2 is not None:
                        out.append((i, (o2, own[1]), b))
        return out

    def rechecks(self, f, start, owner, P):
        """branch nodes after start that read the owner's guarded state again, one edge of which avoids P"""
        cfg = f.cfg
        out = []
        after = reach_set(f, start)

        def fresh(j):
            p = path._pos(f, j)
            return p is not None and (start is None or p in after or p[0] in after)
        for b in cfg.b:
            if not cfg.two_way(b):
                continue
            c = cfg.cond(b)
            if c is None or c < 0:
                continue
            rd = self.cond_reads(f, c, fresh)
            if any(self.G.same(o, owner) for o, fl in rd):
                s = cfg.succ[b]
                if len(s) < 2 or any(not hits(f, x, P) for x in s):
                    out.append(c)
        return out

    def solve(self):
        changed, rounds = True, 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for k in self.G.acc:
                f = self.prog.F[k]
                if f.get("ctor") or f.get("dtor") or f.cfg is None:
                    continue
                s = self.L.info(f)
                mine = set()
                for n, own, b in self.points(f):
                    if any(self.G.same(o, own) and self.reaches(f, i, n) for i, o in self.acquisitions(f)):
                        continue
                    if path_free(f, None, n, self.rechecks(f, None, own, n)):
                        mine.add((own, b))
                if mine - self.unchecked.get(k, set()):
                    self.unchecked.setdefault(k, set()).update(mine)
                    changed = True

    def reaches(self, f, i, j):
        return path.reach(f, i, j)


def strip(f, x):
    for _ in range(20):
        n = f.N[x]
        if n["k"] in ("Cast", "Paren", "Temp", "Implicit") and f.kids(x):
            x = f.kids(x)[0]
        elif n["k"] == "Call" and n.get("fn") in ("std::move", "std::as_const", "std::forward") and n.get("a"):
            x = n["a"][0]
        else:
            break
    return x


_DEFS = {}


def defs(f, v):
    """expressions a local takes its value from"""
    m = _DEFS.get(f.key)
    if m is None:
        m = _DEFS[f.key] = {}
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Decl":
                for d in n["vars"]:
                    if d.get("i", -1) is not None and d.get("i", -1) >= 0:
                        m.setdefault(d["v"], []).append(d["i"])
                    for b in d.get("binds", []) or []:
                        m.setdefault(b["v"] if isinstance(b, dict) else b, []).append(d["i"])
            elif n["k"] == "Assign":
                x = strip(f, n["c"][0])
                if f.N[x]["k"] == "Ref":
                    m.setdefault(f.N[x]["v"], []).append(n["c"][1])
            elif n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) is not None and n.get("o", -1) >= 0:
                x = strip(f, n["o"])
                if f.N[x]["k"] == "Ref" and n.get("a"):
                    m.setdefault(f.N[x]["v"], []).append(n["a"][0])
    return m.get(v, [])


def reach_set(f, start):
    """positions (and whole blocks) after start"""
    cfg = f.cfg
    if start is None:
        return set(cfg.b)
    b0, k0 = path._pos(f, start)
    out = {(b0, k) for k in range(k0, len(cfg.b[b0]["e"]))}
    seen, st = set(), list(cfg.succ[b0])
    while st:
        x = st.pop()
        if x in seen or x is None:
            continue
        seen.add(x)
        st.extend(cfg.succ[x])
    return out | seen


def hits(f, b, P):
    p = path._pos(f, P)
    if p is None:
        return False
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        if x == p[0]:
            return True
        seen.add(x)
        st.extend(f.cfg.succ[x])
    return False


def path_free(f, start, P, conds):
    """a path from start (or the entry) to P on which none of the branch conditions is evaluated"""
    p = path._pos(f, P)
    if p is None:
        return False
    stop = {}
    cfg = f.cfg
    for b in cfg.b:
        c = cfg.cond(b)
        if c in conds:
            stop[b] = True
    if start is None:
        b0, k0 = cfg.entry, -1
    else:
        b0, k0 = path._pos(f, start)
    if b0 == p[0] and k0 < p[1]:
        return True
    if b0 in stop:
        return False
    seen, st = set(), list(cfg.succ[b0])
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        if x == p[0]:
            return True
        if x in stop:
            continue
        st.extend(cfg.succ[x])
    return False


def itertype(t):
    return bool(re.search(r"[iI]terator\b|[iI]terator<", t))


def check(prog, rep, tier):
    O = Once(prog)
    O.solve()
    G = O.G
    published = set()
    for k in sorted(G.acc):
        f = prog.F[k]
        if f.cfg is None or f.get("dep"):
            continue
        for A, own in O.acquisitions(f):
            one(prog, O, f, A, own, rep)
        if not (f.get("ctor") or f.get("dtor")):
            replaced(prog, O, f, rep)
            same_key(prog, O, f, rep)
        flags(prog, O, f, rep)
    rep.floor("recheck", 5)


def lookup_before(O, f, A, own):
    """the acquisition happens because a look-up of the owner's state came out one way"""
    cfg = f.cfg
    G = O.G
    out = []
    for b in cfg.b:
        if not cfg.two_way(b):
            continue
        c = cfg.cond(b)
        if c is None or c < 0 or path._pos(f, c) is None:
            continue
        if not any(hits(f, x, A) for x in cfg.succ[b]) or all(hits(f, x, A) for x in cfg.succ[b]):
            continue
        if G.held(f, c, own, W):
            continue
        rd = {(o, fl) for o, fl in O.cond_reads(f, c) if G.same(o, own)}
        if rd:
            out.append((c, rd))
    return out


def one(prog, O, f, A, own, rep):
    G = O.G
    looks = lookup_before(O, f, A, own)
    if not looks:
        return
    nm = g1.show(own)
    pts = [(n, o, b) for n, o, b in O.points(f) if G.same(o, own) and O.reaches(f, A, n)]
    for n, o, b in pts:
        if b in FLAGS:
            pass
        free = path_free(f, A, n, O.rechecks(f, A, own, n))
        rep.add(not free, "recheck", "%s|%s|%s" % (f.short, b[len(M):], nm), f.loc(n), "" if not free else
                "%s looks `%s` up, takes the lock of %s and publishes (`%s`) without looking again: another thread may have created it in between" % (f.short, b.rsplit("::", 1)[-1], nm, pp.ex(f, n)[:60]))
    # nothing derived from a look-up made before the lock is used after it
    rd = O.reads(f)
    after = reach_set(f, A)
    vi = core.varinfo(f)
    pa = path._pos(f, A)

    def post(j):
        p = path._pos(f, j)
        return p is not None and (p in after or p[0] in after)
    stale = {}
    for v, g in vi.items():
        if g.decl is None:
            continue
        ds = defs(f, v)
        if not ds:
            continue
        pre = [d for d in ds if not post(d)]
        if len(pre) != len(ds):
            continue
        why = set()
        for d in pre:
            why |= {(o, fl) for o, fl in O.cond_reads(f, d, lambda j: not post(j)) if G.same(o, own)}
        if not why:
            continue
        t = g.t
        if locks.lock_kind(t) or "IndexTree" in t or "span<" in t:
            continue
        if core.is_ref(t) or core.is_ptr(t):
            continue
        stale[v] = (why, t)
    used = []
    for j in f.all_nodes():
        n = f.N[j]
        if n["k"] == "Ref" and n.get("v") in stale and post(j) and path._pos(f, j) != pa:
            used.append((j, n["v"]))
    for v, (why, t) in sorted(stale.items()):
        u = [j for j, w in used if w == v]
        u = [j for j in u if not assigned(f, j)]
        rep.add(not u, "stale", "%s|%s" % (f.short, v.split("#")[0]), f.loc(u[0]) if u else f.loc(), "" if not u else
                "%s uses `%s`, which it looked up before it took the exclusive lock of %s: another thread may have changed %s since" % (f.short, v.split("#")[0], nm, ", ".join(sorted({fl.rsplit("::", 1)[-1] for o, fl in why}))))


def assigned(f, j):
    p = f.parents().get(j)
    return p is not None and f.N[p]["k"] == "Assign" and f.N[p]["c"][0] == j


def key_of(f, i, cn):
    n = f.N[i]
    a = n.get("a") or []
    if not a:
        return None
    x = strip(f, a[0])
    m = f.N[x]
    if m["k"] == "Call" and m.get("fn") in ("std::make_pair", "std::pair") and m.get("a"):
        x = strip(f, m["a"][0])
    elif m["k"] in ("Ctor", "InitList") and "pair<" in f.ty(x) and (m.get("a") or m.get("c")):
        x = strip(f, (m.get("a") or m["c"])[0])
    for _ in range(6):
        m = f.N[x]
        ks = m.get("a") or m.get("c") or []
        if m["k"] in ("Ctor", "InitList", "Cast") and len(ks) == 1:
            x = strip(f, ks[0])
        else:
            break
    return cn(x)


def same_key(prog, O, f, rep):
    """the key whose absence was seen is the key that is inserted"""
    G = O.G
    cn = O.L.canon(f)
    puts, finds = {}, {}
    for i in f.all_nodes():
        n = f.N[i]
        o = n.get("o", -1)
        if n["k"] != "Call" or o is None or o < 0:
            continue
        x = strip(f, o)
        if f.N[x]["k"] != "Mem" or g1.base_name(f.N[x].get("fd")) not in INDEX:
            continue
        last = n.get("fn", "").rsplit("::", 1)[-1]
        d = puts if last in PUT else finds if last in FIND else None
        if d is not None and n.get("a"):
            d.setdefault(cn(x), []).append(i)
    for c, ps in puts.items():
        for p in ps:
            fs = [i for i in finds.get(c, []) if path.reach(f, i, p)]
            if not fs:
                continue
            kp = key_of(f, p, cn)
            ks = {key_of(f, i, cn) for i in fs}
            if kp is None or None in ks:
                continue
            ok = kp in ks
            rep.add(ok, "same-key", "%s|%s" % (f.short, f.N[strip(f, f.N[p]["o"])]["n"]), f.loc(p), "" if ok else
                    "%s looks up one key and inserts under another: `%s` after `%s`" % (f.short, pp.ex(f, p)[:60], pp.ex(f, fs[0])[:60]))


def replaced(prog, O, f, rep):
    """a pointer through which an object was published is set only where it was seen empty under the lock"""
    G = O.G
    cn = O.L.canon(f)
    F = None
    for nid, own, b in O.publishes(f):
        if b not in PTRS:
            continue
        n = f.N[nid]
        last = n.get("fn", "").rsplit("::", 1)[-1] if n["k"] == "Call" else "="
        if last not in ("=", "operator=", "reset", "swap", "exchange"):
            continue
        if n["k"] == "Call" and n.get("op") != "=" and last == "operator=":
            continue
        tgt = strip(f, n["c"][0] if n["k"] == "Assign" else n["o"])
        if f.N[tgt]["k"] == "Mem" and re.search(r"vector<|map<", f.ty(tgt)):
            continue
        if f.name.endswith("PersistentStorageMonoid::set"):
            continue          # documented to replace what is stored
        if F is None:
            F = core.Facts(f)
        lits = F.at(nid) or ()
        t = cn(tgt)
        ok = any(emptylit(l, t) for l in lits) or O_rechecked(O, f, nid, own, b)
        rep.add(ok, "replace", "%s|%s" % (f.short, b[len(M):]), f.loc(nid), "" if ok else
                "%s sets `%s` without having seen it empty: an object other threads may be using is destroyed" % (f.short, b.rsplit("::", 1)[-1]))


def emptylit(l, t):
    s = repr(l)
    return repr(t) in s


def O_rechecked(O, f, nid, own, b):
    """some branch between every lock acquisition and the write reads that field and has an edge that avoids the write"""
    rc = []
    for c in O.rechecks(f, None, own, nid):
        if any(fl == b for o, fl in O.cond_reads(f, c)):
            rc.append(c)
    return bool(rc) and not path_free(f, None, nid, rc)


def flags(prog, O, f, rep):
    """a 'ready' flag read without the lock is stored after what it announces, with release order, and read with acquire order"""
    G = O.G
    for nid, own, mode, b in G.acc.get(f.key, ()):
        if b not in FLAGS:
            continue
        n = f.N[nid]
        if mode == W and n["k"] == "Call" and not (f.get("ctor") or f.get("dtor")):
            data = [x for x, o, m, fl in G.acc[f.key] if m == W and fl.rsplit("::", 1)[-1] in FLAGS[b] and fl.rsplit("::", 1)[0] == b.rsplit("::", 1)[0]]
            late = [x for x in data if path.reach(f, nid, x)]
            rep.add(not late, "ready-last", "%s|%s" % (f.short, b[len(M):]), f.loc(nid), "" if not late else
                    "%s announces `%s` before it has written `%s`" % (f.short, b.rsplit("::", 1)[-1], pp.ex(f, late[0])[:60]))
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] != "Call" or n.get("fn", "").rsplit("::", 1)[-1] not in ("store", "load"):
            continue
        o = n.get("o", -1)
        x = strip(f, o) if o is not None and o >= 0 else None
        if x is None or f.N[x]["k"] != "Mem" or g1.base_name(f.N[x].get("fd")) not in FLAGS:
            continue
        b = g1.base_name(f.N[x]["fd"])
        own = G.owner(f, x, b)
        args = " ".join(pp.ex(f, a) for a in n.get("a", []))
        last = n["fn"].rsplit("::", 1)[-1]
        if f.get("ctor") or f.get("dtor") or G.held(f, i, own, R) and last == "load":
            continue
        relaxed = "relaxed" in args or ("consume" in args)
        rep.add(not relaxed, "ready-order", "%s|%s|%s" % (f.short, b[len(M):], last), f.loc(i), "" if not relaxed else
                "%s %ss `%s` with relaxed order: what it announces may not be visible" % (f.short, last, b.rsplit("::", 1)[-1]))
