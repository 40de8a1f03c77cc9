"""C03: no operation waits for a lock it already holds; locks of different kinds nest in one order; a wake-up cannot be missed."""
import re
import core, locks, path, pp
import c01_guard as g1
from locks import R, W, norm, subst

RULE = ("where a lock of an object is held (taken here or proved by the caller) nothing on any call chain takes a lock of the same object; kinds of locks held together are always taken in one order; "
        "a lock variable is locked only when unlocked and unlocked only when locked; a lock borrowed from the caller is given back as it came; a condition variable is notified only after passing through the waiter's mutex")
TECHNIQUE = "lock-set dataflow with object paths, transitive acquisition summaries over the call graph, lock-class order graph"
LEVEL = "abstraction"
M = "Moment::"


class Acq:
    def __init__(self, prog):
        self.prog = prog
        self.G = g1.get(prog)
        self.L = self.G.L
        self.direct, self.sum = {}, {}
        self.fns = [f for f in prog.live() if f.body >= 0 or f.get("inits")]
        for f in self.fns:
            d = {}
            s = self.L.info(f)
            if not s.empty:
                for i, evs in s.ev.items():
                    for v, h in evs:
                        x = s.vars.get(v) or s.params.get(v)
                        if h and x and x[0] is not None:
                            own = (self.L.simp(x[0][0]), x[0][1])
                            if v in s.vars or f.N[i]["k"] == "Call":
                                d.setdefault((own, x[1]), i)
            self.direct[f.key] = d
            if d:
                self.sum[f.key] = {k: (i, None) for k, i in d.items()}
        work = list(self.sum)
        inq = set(work)
        while work:
            k = work.pop()
            inq.discard(k)
            g = prog.F[k]
            for f, i in self.G.calls.get(k, []):
                n = f.N[i]
                if n["k"] == "Lambda" and not run_here(f, i):
                    continue
                S = self.sum.setdefault(f.key, {})
                new = False
                for (own, mode), _ in list(self.sum[k].items()):
                    if own[0] is None:
                        continue
                    o2 = self.G.up(f, n, g, own[0])
                    if o2 is None:
                        continue
                    key = ((o2, own[1]), mode)
                    if key not in S and len(S) < 60:
                        S[key] = (i, k)
                        new = True
                if new and f.key not in inq:
                    inq.add(f.key)
                    work.append(f.key)

    def chain(self, k, key, depth=7):
        out = []
        mode = key[1]
        while k and depth:
            depth -= 1
            f = self.prog.F[k]
            e = self.sum.get(k, {}).get(key)
            if e is None:
                e = next((v for (o, m), v in self.sum.get(k, {}).items() if m == mode and o[1] == key[0][1]), None)
                if e is None:
                    break
            out.append("%s (%s)" % (f.short, f.loc(e[0])))
            k = e[1]
        return " -> ".join(out)


def borrowed(prog, f, n, t, v):
    g = prog.F[t]
    for j, a in enumerate(n.get("a", []) or []):
        if j < len(g.params) and any(f.N[x]["k"] == "Ref" and f.N[x].get("v") == v for x in f.walk(a)):
            ty = g.T[g.params[j]["t"]]
            if locks.lock_kind(ty) and core.is_ref(ty) and not ty.startswith("const "):
                return True
    return False


def run_here(f, i):
    """the lambda is run by the function that makes it (not handed to a thread)"""
    p = f.parents().get(i)
    for _ in range(8):
        if p is None:
            return True
        n = f.N[p]
        if n["k"] in ("Ctor", "Call") and re.search(r"std::(jthread|thread|async)", (n.get("fn") or "") + (n.get("cls") or "")):
            return False
        p = f.parents().get(p)
    return True


def kind(prog, L, f, own):
    """the class of lock an owner stands for"""
    t = own[0]
    cls = type_of(prog, L, f, t)
    return (cls, own[1]) if cls else None


def type_of(prog, L, f, t):
    if t == ("this",):
        c = re.sub(r"<.*", "", f.get("cls") or "")
    elif isinstance(t, tuple) and t and t[0] == "v":
        c = None
        for p in f.params:
            if p["v"] == t[1]:
                c = L.cls_of_type(f.T[p["t"]])
        if c is None:
            g = core.varinfo(f).get(t[1])
            c = L.cls_of_type(g.t) if g is not None else None
    elif isinstance(t, tuple) and t and t[0] == ".":
        b = type_of(prog, L, f, t[1])
        c = None
        if b:
            for y in L.fields(b):
                if y["n"] == t[2]:
                    m = re.search(r"(?:unique_ptr|shared_ptr)<\s*(?:const )?(?:class |struct )?([\w:]+)", y["t"])
                    c = m.group(1) if m else L.cls_of_type(y["t"])
    else:
        return None
    if not c:
        return None
    # the class that has the mutex
    best = c
    for b in ("Moment::MatrixSystem", "Moment::Dictionary", "Moment::DictionaryMap", "Moment::MaintainsTensors"):
        if prog.is_a(c, b):
            best = b
    if best == "Moment::MaintainsTensors" or prog.is_a(c, "Moment::MatrixSystem") or c == "Moment::MaintainsTensors":
        best = "Moment::MatrixSystem"      # same mutex: tensors are maintained by matrix systems
    return best


def check(prog, rep, tier):
    A = Acq(prog)
    L, G = A.L, A.G
    order = {}
    for f in A.fns:
        s = L.info(f)
        if s.empty or f.cfg is None or f.get("dep"):
            continue
        lock_states(prog, L, f, s, rep)
        bad = {}
        count = {}
        for i in f.all_nodes():
            n = f.N[i]
            tgt = []
            if n["k"] in ("Call", "Ctor"):
                tgt = [(t, key) for t in prog.targets(n) for key in A.sum.get(t, {})]
            elif n["k"] == "Lambda":
                continue
            own_ev = [(v, h) for v, h in s.ev.get(i, ()) if h]
            if not tgt and not own_ev:
                continue
            held = {(o, m, v) for o, m, v in s.at(i, may=True) if o is not None}
            if not held:
                continue
            taken = []
            for t, key in tgt:
                (own, mode) = key
                if own[0] is None:
                    continue
                o2 = G.up(f, n, prog.F[t], own[0])
                if o2 is not None:
                    taken.append(((o2, own[1]), mode, t, key))
            for v, h in own_ev:
                x = s.vars.get(v) or s.params.get(v)
                if x and x[0] is not None:
                    taken.append(((L.simp(x[0][0]), x[0][1]), x[1], None, v))
            for o, m, v in held:
                for o2, mode, t, key in taken:
                    if t is None and key == v and n["k"] == "Decl":
                        continue
                    if t is not None and borrowed(prog, f, n, t, v):
                        continue          # the callee gets the lock itself, and is judged as holding it
                    ho = (L.simp(o[0]), o[1])
                    if G.same(ho, o2):
                        if t is None and key == v:
                            continue      # same variable: lock_states
                        bad.setdefault((g1.show(o2), v), (i, m, mode, t, key))
                    else:
                        k1, k2 = kind(prog, L, f, ho), kind(prog, L, f, o2)
                        if k1 and k2 and k1 != k2:
                            order.setdefault((k1, k2), (f, i))
            for o, m, v in held:
                count[(g1.show((L.simp(o[0]), o[1])), v)] = f.loc(i)
        for (nm, v), at in sorted(count.items()):
            b = bad.get((nm, v))
            rep.add(b is None, "reentry", "%s|%s|%s" % (f.short, nm, v.split("#")[0]), f.loc(b[0]) if b else at, "" if b is None else
                    "%s takes the lock of %s %s while it already holds it (`%s`): %s" % (f.short, nm, "for writing" if b[2] == W else "for reading", v.split("#")[0],
                                                                                     A.chain(b[3], b[4]) if b[3] else f.loc(b[0])))
        for (nm, v), b in bad.items():
            if (nm, v) not in count:
                rep.bad("reentry", "%s|%s|%s" % (f.short, nm, v.split("#")[0]), f.loc(b[0]), "%s takes the lock of %s while it already holds it: %s" % (f.short, nm, A.chain(b[3], b[4]) if b[3] else ""))
    cycles(order, rep)
    joins(prog, A, rep)
    wakeups(prog, L, rep, A)
    rep.floor("reentry", 10)


def joins(prog, A, rep):
    """waiting for a worker thread is waiting for every lock the worker takes"""
    L, G = A.L, A.G
    entries = {}
    for f in A.fns:
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Ctor" and re.match(r"std::(jthread|thread)$", (n.get("cls") or "")) and n.get("a"):
                for j in f.walk(i):
                    m = f.N[j]
                    if m["k"] == "Lambda" and m.get("f") in prog.F:
                        entries.setdefault(re.sub(r"<.*", "", f.get("cls") or ""), set()).add(m["f"])
                    elif m["k"] == "Ref" and m.get("f") in prog.F:
                        entries.setdefault(re.sub(r"<.*", "", f.get("cls") or ""), set()).add(m["f"])
                    elif m["k"] == "Ref" and m.get("dk") in ("fn", "func", "method"):
                        for g in prog.F.values():
                            if g.name.endswith("::" + m.get("n", "?")) and re.sub(r"<.*", "", g.get("cls") or "") == re.sub(r"<.*", "", f.get("cls") or ""):
                                entries.setdefault(re.sub(r"<.*", "", f.get("cls") or ""), set()).add(g.key)
    need = {}
    for f in A.fns:
        cls = re.sub(r"<.*", "", f.get("cls") or "")
        if cls not in entries:
            continue
        if any(f.N[i]["k"] == "Call" and re.match(r"std::(jthread|thread)::join$", f.N[i].get("fn", "")) for i in f.all_nodes()):
            ks = set()
            for e in entries[cls]:
                g = prog.F[e]
                for (own, mode) in A.sum.get(e, {}):
                    k = kind(prog, L, g, own)
                    if k:
                        ks.add(k)
            need[f.key] = ks
    work = list(need)
    while work:
        k = work.pop()
        for f, i in G.calls.get(k, []):
            if f.N[i]["k"] == "Lambda" and not run_here(f, i):
                continue
            if f.key not in need or need[k] - need[f.key]:
                need[f.key] = need.get(f.key, set()) | need[k]
                work.append(f.key)
    for f in A.fns:
        s = L.info(f)
        if s.empty or f.get("dep"):
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] not in ("Call", "Ctor"):
                continue
            ks = set()
            for t in prog.targets(n):
                ks |= need.get(t, set())
            if not any(t in need for t in prog.targets(n)):
                continue
            held = {kind(prog, L, f, (L.simp(o[0]), o[1])) for o, m, v in s.at(i, may=True) if o is not None}
            held.discard(None)
            bad = held & ks
            rep.add(not bad, "join", "%s|%s" % (f.short, n.get("fn", "").rsplit("::", 1)[-1]), f.loc(i), "" if not bad else
                    "%s waits for worker threads while it holds a lock of %s, which the workers take" % (f.short, ", ".join(b[0] for b in sorted(bad))))


def cycles(order, rep):
    adj = {}
    for (a, b) in order:
        adj.setdefault(a, set()).add(b)

    def reach(a, b):
        st, seen = [a], set()
        while st:
            x = st.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            st += adj.get(x, ())
        return False
    for (a, b), (f, i) in sorted(order.items(), key=repr):
        cyc = reach(b, a)
        rep.add(not cyc, "order", "%s.%s < %s.%s" % (a[0], a[1], b[0], b[1]), f.loc(i), "" if not cyc else
                "%s takes a lock of %s while it holds one of %s; elsewhere they are taken the other way round" % (f.short, b[0], a[0]))


def lock_states(prog, L, f, s, rep):
    """lock() on a lock that may be held, unlock() on one that may not be; a borrowed lock is given back as it came"""
    for i, evs in s.ev.items():
        n = f.N[i]
        if n["k"] != "Call":
            continue
        last = n.get("fn", "").rsplit("::", 1)[-1]
        for v, h in evs:
            if last == "lock":
                bad = any(x[2] == v for x in s.at(i, may=True))
                rep.add(not bad, "lock-state", "%s|%s|lock" % (f.short, v.split("#")[0]), f.loc(i), "" if not bad else "%s locks `%s`, which may be locked already" % (f.short, v.split("#")[0]))
            elif last == "unlock":
                bad = not any(x[2] == v for x in s.at(i)) and v in s.vars and s.vars[v][3] is not None
                rep.add(not bad, "lock-state", "%s|%s|unlock" % (f.short, v.split("#")[0]), f.loc(i), "" if not bad else "%s unlocks `%s`, which may not be locked" % (f.short, v.split("#")[0]))
    for v, x in s.params.items():
        if not x[2]:
            continue
        evs = [i for i, e in s.ev.items() if any(w == v for w, h in e)]
        if not evs:
            continue
        rel = [i for i in evs if any(w == v and not h for w, h in s.ev[i])]
        acq = [i for i in evs if any(w == v and h for w, h in s.ev[i])]
        if not acq:
            continue        # the lock is consumed
        for r in rel:
            if f.N[r]["k"] == "Call" and f.N[r].get("fn") == "std::move":
                continue
            ok = path.after(f, r, acq)
            rep.add(ok is True, "given-back", "%s|%s" % (f.short, v.split("#")[0]), f.loc(r), "" if ok is True else "%s can return with the caller's lock `%s` released" % (f.short, v.split("#")[0]))


def wakeups(prog, L, rep, A):
    """every notify of a condition variable happens after the waiters' mutex was passed through since the state changed"""
    waits = {}
    for f in prog.live():
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and re.match(r"std::condition_variable(_any)?::wait", n.get("fn", "")) and n.get("a"):
                cv = field_of(f, n.get("o", -1))
                if cv is None:
                    continue
                pred = len(n["a"]) >= 2
                looped = in_loop(f, i)
                rep.add(pred or looped, "wait-condition", "%s|%s" % (f.short, cv), f.loc(i), "" if pred or looped else "%s waits on `%s` without testing its condition" % (f.short, cv))
                m = set()
                s = L.info(f)
                for v, x in s.vars.items():
                    if x[0] is not None:
                        m.add(x[0][1])
                for j in f.all_nodes():      # mutexes the lock was built from
                    if f.N[j]["k"] == "Mem" and re.search(r"std::(shared_|recursive_|timed_)?mutex", f.ty(j) or ""):
                        m.add(f.N[j]["n"])
                # the condition is tested with that mutex held
                inside = set(f.walk(i))
                for k in prog.lambdas_of.get(f.key, []):
                    if any(f.N[j]["k"] == "Lambda" and f.N[j].get("f") == k for j in inside):
                        own = [key for key in A.sum.get(k, {}) if key[0][1] in m]
                        rep.add(not own, "reentry", "%s|condition of %s" % (f.short, cv), f.loc(i), "" if not own else
                                "the condition %s waits for is tested with `%s` held, and takes it again" % (f.short, own[0][0][1]))
                waits.setdefault((re.sub(r"<.*", "", f.get("cls") or ""), cv), set()).update(m)
    acquires = {}
    for f in prog.live():
        cls = re.sub(r"<.*", "", f.get("cls") or "")
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or n.get("fn", "").rsplit("::", 1)[-1] not in ("notify_one", "notify_all") or "condition_variable" not in n.get("fn", ""):
                continue
            cv = field_of(f, n.get("o", -1))
            ms = waits.get((cls, cv))
            if not ms:
                continue
            pts = []
            for j in f.all_nodes():
                x = f.N[j]
                if x["k"] in ("Decl",):
                    for d in x["vars"]:
                        if d.get("i", -1) is not None and d.get("i", -1) >= 0 and any(f.N[q]["k"] == "Mem" and f.N[q]["n"] in ms for q in f.walk(d["i"])):
                            pts.append(j)
                elif x["k"] == "Call":
                    for t in prog.targets(x):
                        g = prog.F[t]
                        if re.sub(r"<.*", "", g.get("cls") or "") == cls and takes(L, g, ms):
                            pts.append(j)
                    if x.get("fn", "").rsplit("::", 1)[-1] == "lock" and x.get("o", -1) is not None and x.get("o", -1) >= 0 and field_of(f, x["o"]) in ms:
                        pts.append(j)
            # the last change of shared state before the notification is followed by one of them
            ch = changes(prog, f, i, cls)
            ok = all(path.after(f, c, pts, until=[i]) is True or in_region(f, L, c, ms) for c in ch) if ch else bool(pts) and path.before(f, i, pts)
            rep.add(bool(ok), "wake-up", "%s|%s" % (f.short, cv), f.loc(i), "" if ok else
                    "%s changes what the waiters of `%s` test and notifies without having passed through their mutex (%s): the wake-up is lost when a waiter has just tested" % (f.short, cv, ", ".join(sorted(ms))))


def takes(L, g, ms):
    s = L.info(g)
    return not s.empty and any(x[0] is not None and x[0][1] in ms for x in s.vars.values())


def in_region(f, L, c, ms):
    return any(o is not None and o[1] in ms for o, m, v in L.info(f).at(c))


def changes(prog, f, i, cls):
    """writes of the object's own state that can reach the notification"""
    out = []
    for j in f.all_nodes():
        n = f.N[j]
        tgt = None
        if n["k"] == "Assign" or (n["k"] == "Un" and n["op"] in ("++", "--")):
            tgt = n["c"][0]
        elif n["k"] == "Call" and not n.get("mconst") and n.get("o", -1) is not None and n.get("o", -1) >= 0 and j != i:
            last = n.get("fn", "").rsplit("::", 1)[-1]
            if last in g1.MUT_STD or last in ("test_and_set", "clear", "fetch_add", "fetch_sub"):
                tgt = n["o"]
        if tgt is None:
            continue
        r, fl, p = core.lval_root(f, tgt)
        if r == "this" and path.reach(f, j, i):
            out.append(j)
    return out


def field_of(f, x):
    if x is None or x < 0:
        return None
    while f.N[x]["k"] in ("Cast", "Paren") and f.kids(x):
        x = f.kids(x)[0]
    return f.N[x]["n"] if f.N[x]["k"] == "Mem" else None


def in_loop(f, i):
    p = f.parents().get(i)
    while p is not None:
        if f.N[p]["k"] in ("While", "Do", "For"):
            return True
        p = f.parents().get(p)
    return False
