"""Which mutexes a thread holds at every point of a function, and which ones a call may take.

A mutex is named by (path of the object that owns it, name of the mutex field); the path is a canonical term of the function (`this`, a parameter, a
field of either).  For classes derived from MaintainsMutex the pair is (object, 'rw')."""
import re
import core, ir

LOCKT = re.compile(r"^(const )?std::(shared_lock|unique_lock|lock_guard|scoped_lock)\b")
R, W = "R", "W"


def lock_kind(t):
    t = core.strip_cv(t.rstrip("& "))
    m = LOCKT.match(t)
    if not m:
        return None
    return R if m.group(2) == "shared_lock" else W


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.st = {}
        self.cn = {}
        self.mutexed = set(prog.subclasses("Moment::MaintainsMutex"))

    def canon(self, f):
        c = self.cn.get(f.key)
        if c is None:
            c = self.cn[f.key] = core.Canon(f)
        return c

    # -- which class's objects own a mutex ------------------------------------------------------------------------
    def is_mutexed(self, cls):
        return bool(cls) and any(self.prog.is_a(cls, b) for b in ("Moment::MaintainsMutex",))

    def cls_of_type(self, t):
        t = core.strip_cv((t or "").rstrip("&* ").replace("class ", ""))
        t = re.sub(r"^const ", "", t)
        return re.sub(r"<.*", "", t)

    def home(self, f):
        """object that a lock parameter of f is evidence for, as a term of f"""
        cls = re.sub(r"<.*", "", f.get("cls") or "")
        if f.get("lambda"):
            p = self.prog.F.get(f.get("parent"))
            return self.home(p) if p else None
        if cls and self.is_mutexed(cls) and not f.get("static"):
            return ("this",)
        for p in f.params:
            if self.is_mutexed(self.cls_of_type(f.T[p["t"]])):
                return ("v", p["v"])
        if cls:
            for y in self.fields(cls):
                if self.is_mutexed(self.cls_of_type(y["t"])) and (y.get("ref") or core.is_ptr(core.strip_cv(y["t"]))):
                    return (".", ("this",), y["n"])
        return None

    def fields(self, cls):
        out = []
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            rs = self.prog.rec.get(c, [])
            for r in [r for r in rs if not r.get("dep")][:1] or rs[:1]:
                out += r.get("fields", [])
            todo += [b.split("<")[0] for b in self.prog.bases.get(c, ())]
        return out

    def alias_sets(self):
        """names of member objects that carry a reference back to the system they belong to"""
        a = self.__dict__.get("_alias")
        if a is None:
            s1, s2 = set(), set()
            for cls in {r["name"] for r in self.prog.R.values()}:
                for r in self.prog.rec.get(cls, []):
                    if r.get("dep"):
                        continue
                    for y in r.get("fields", []):
                        c = self.cls_of_type(y["t"])
                        if c and not self.is_mutexed(c) and not y.get("ref") and any(z["n"] == "system" for z in self.fields(c)):
                            (s1 if self.is_mutexed(cls) else s2).add(y["n"])
            a = self.__dict__["_alias"] = (s1, s2)
        return a

    def simp(self, t):
        """O.Member.system -> O when Member belongs to the system O;  x.factory.system -> x.system"""
        if not isinstance(t, tuple):
            return t
        t = tuple(self.simp(x) for x in t)
        if t and t[0] == "." and t[2] == "system" and t[1][0] == ".":
            s1, s2 = self.alias_sets()
            if t[1][2] in s1:
                return t[1][1]
            if t[1][2] in s2:
                return self.simp((".", t[1][1], "system"))
        return t

    # -- locks created in a function -------------------------------------------------------------------------------
    def owner_of_mutex(self, f, nid):
        """mutex-valued expression -> (object path, field)"""
        t = self.canon(f)(nid)
        while t and t[0] in ("deref", "addr", "un*", "un&"):
            t = t[1]
        if t[0] == ".":
            return (norm(t[1]), "rw" if t[2] == "rwMutex" else t[2])
        if t[0] == "v":
            return (norm(t), "*")
        return None

    def made(self, f, nid, depth=0):
        """expression that yields a lock: (owner, mode, held) or None"""
        n = f.N[nid]
        k = n["k"]
        if k == "Call":
            last = n.get("fn", "").rsplit("::", 1)[-1]
            if last in ("get_read_lock", "get_write_lock") and n.get("o", -1) >= 0:
                return ((norm(self.canon(f)(n["o"])), "rw"), R if last == "get_read_lock" else W, True)
            # a helper that returns a lock
            g = self.prog.F.get(n.get("f"))
            if g is not None and depth < 3 and n.get("o", -1) is not None and n.get("o", -1) >= 0 and lock_kind(f.ty(nid) or ""):
                for x in g.all_nodes():
                    if g.N[x]["k"] == "Return" and g.kids(x):
                        m = self.made(g, g.kids(x)[0], depth + 1)
                        if m and m[0] is not None:
                            return ((norm(subst(m[0][0], norm(self.canon(f)(n["o"])))), m[0][1]), m[1], m[2])
            if n.get("fn") in ("std::move", "std::forward") and n.get("a"):
                return None
            return None
        if k == "Ctor":
            kind = lock_kind(n.get("cls", "") or f.ty(nid) or "")
            a = [x for x in n.get("a", [])]
            if kind is None:
                if len(a) == 1:
                    return self.made(f, a[0], depth)
                return None
            if not a:
                return (None, kind, False)
            if lock_kind(f.ty(a[0]) or ""):      # move / copy from another lock expression
                return self.made(f, a[0], depth)
            own = self.owner_of_mutex(f, a[0])
            held = True
            for x in a[1:]:
                ty = f.ty(x) or ""
                if "defer_lock" in ty or "try_to_lock" in ty:
                    held = False
            return (own, kind, held)
        if k in ("Cast", "Paren", "Temp", "InitList") or len(f.kids(nid)) == 1:
            ks = f.kids(nid)
            if len(ks) == 1:
                return self.made(f, ks[0], depth)
        return None

    def info(self, f):
        s = self.st.get(f.key)
        if s is None:
            s = self.st[f.key] = State(self, f)
        return s


def norm(t):
    """strip casts/dereferences that do not change the object"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("deref", "un*", "cast") and len(t) >= 2 and isinstance(t[-1], tuple):
        return norm(t[-1])
    if t and t[0] == "call" and t[2] is not None and str(t[1]).rsplit("::", 1)[-1] in ("get", "operator*", "operator->"):
        return norm(t[2])
    if t and t[0] == ".":
        return (".", norm(t[1]), t[2])
    return t


def subst(t, base):
    """replace `this` by base"""
    if t == ("this",):
        return base
    if isinstance(t, tuple):
        return tuple(subst(x, base) for x in t)
    return t


class State:
    """lock variables of one function and where each is held"""

    def __init__(self, L, f):
        self.L, self.f = L, f
        self.vars = {}       # v -> (owner, mode, held-at-decl, decl node)
        self.params = {}     # v -> (owner, mode, by-nonconst-ref)
        self.ev = {}         # node -> [(v, held?)]
        vi = core.varinfo(f)
        home = None
        for p in f.params:
            ty = f.T[p["t"]]
            k = lock_kind(ty)
            if k and core.is_ref(ty):
                if home is None:
                    home = L.home(f) or False
                self.params[p["v"]] = ((home, "rw") if home else None, k, not ty.startswith("const "))
        if not self.params and not any("lock" in (t or "") for t in f.T):
            self.empty = True
            return
        self.empty = False
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Decl":
                for d in n["vars"]:
                    ty = f.T[d["t"]] if isinstance(d.get("t"), int) else d.get("t", "")
                    if ty and "std::tuple<" in ty and "_lock<" in ty and not core.is_ref(ty):
                        self.vars[d["v"]] = (None, W if "unique_lock" in ty else R, True, i)
                        self.ev.setdefault(i, []).append((d["v"], True))
                        continue
                    if not lock_kind(ty or "") or core.is_ref(ty):
                        continue
                    m = L.made(f, d["i"]) if d.get("i", -1) is not None and d.get("i", -1) >= 0 else (None, lock_kind(ty), False)
                    if m is None:
                        m = (None, lock_kind(ty), True)
                    if d["v"] not in self.vars:
                        self.vars[d["v"]] = (m[0], m[1], m[2], i)
                    self.ev.setdefault(i, []).append((d["v"], m[2]))
        names = set(self.vars) | set(self.params)
        if not names:
            self.empty = not self.params
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call":
                last = n.get("fn", "").rsplit("::", 1)[-1]
                o = n.get("o", -1)
                v = self.var(o) if o is not None and o >= 0 else None
                if v in names and last in ("unlock", "lock", "release", "lock_shared", "unlock_shared"):
                    self.ev.setdefault(i, []).append((v, last.startswith("lock")))
                elif v in names and last == "operator=":
                    m = L.made(f, n["a"][0]) if n.get("a") else None
                    self.ev.setdefault(i, []).append((v, bool(m and m[2])))
                elif n.get("fn") == "std::move" and n.get("a"):
                    v = self.var(n["a"][0])
                    if v in names:
                        self.ev.setdefault(i, []).append((v, False))
        self.IN = None
        self.solve()

    def var(self, i):
        f = self.f
        while i is not None and i >= 0:
            n = f.N[i]
            if n["k"] == "Ref":
                return n.get("v")
            ks = f.kids(i)
            if n["k"] in ("Cast", "Paren") and len(ks) == 1:
                i = ks[0]
                continue
            return None
        return None

    def solve(self):
        f = self.f
        cfg = f.cfg
        self.must = {}
        self.may = {}
        if cfg is None:
            return
        entry = frozenset(self.params)

        def step(b, st, rec=None):
            for k, e in enumerate(cfg.b[b]["e"]):
                if rec is not None:
                    rec.setdefault(e, st)
                for v, h in self.ev.get(e, ()):
                    st = st | {v} if h else st - {v}
            return st
        inm = ir.forward(cfg, entry, lambda b, st: step(b, st), lambda a, b: a & b)
        iny = ir.forward(cfg, entry, lambda b, st: step(b, st), lambda a, b: a | b)
        for b in inm:
            step(b, inm[b], self.must)
        for b in iny:
            step(b, iny[b], self.may)

    def in_scope(self, v, nid):
        """nid follows the declaration of v inside the block that declares it"""
        if v in self.params:
            return True
        f = self.f
        P = f.parents()
        d = self.vars[v][3]
        blk = P.get(d)
        chain = []
        x = nid
        while x is not None:
            chain.append(x)
            if x == blk:
                break
            x = P.get(x)
        else:
            return False
        if blk is None or chain[-1] != blk:
            return False
        if f.N[blk]["k"] != "Block":
            return True
        ks = list(f.kids(blk))
        top = chain[-2] if len(chain) > 1 else None
        if top is None or top not in ks:
            return False
        return ks.index(top) > ks.index(d)

    def at(self, nid, may=False):
        """{(owner, mode, v)} held when nid is evaluated; owner None = unknown mutex"""
        if self.empty or self.f.cfg is None:
            return set()
        tab = self.may if may else self.must
        P = self.f.parents()
        x = nid
        while x is not None and x not in tab:
            x = P.get(x)
        if x is None:
            # exception handlers and the like: what the caller holds, and what is lexically in scope and held from its declaration on
            out = {(self.params[v][0], self.params[v][1], v) for v in self.params if not self.params[v][2]}
            for v, y in self.vars.items():
                if y[2] and self.in_scope(v, nid):
                    out.add((y[0], y[1], v))
            return out
        out = set()
        for v in tab[x]:
            if not self.in_scope(v, nid):
                continue
            if v in self.vars:
                own, mode = self.vars[v][0], self.vars[v][1]
            else:
                own, mode = self.params[v][0], self.params[v][1]
            out.add((own, mode, v))
        return out


def get(prog):
    e = prog.__dict__.get("_locks")
    if e is None:
        e = prog.__dict__["_locks"] = Locks(prog)
    return e


if __name__ == "__main__":
    import sys
    p = ir.load()
    L = get(p)
    for f in sorted(p.live(), key=lambda f: f.name):
        if f.body < 0:
            continue
        s = L.info(f)
        if s.empty or not (s.vars or s.params):
            continue
        print(f.short, f.loc(), {p2["n"]: s.params[p2["v"]] for p2 in f.params if p2["v"] in s.params} or "", [(v, x[:3]) for v, x in s.vars.items()])
