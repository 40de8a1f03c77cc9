"""C04: a failing worker thread ends the operation with an exception for the caller: nothing escapes a thread, nothing is discarded, nobody is left waiting."""
import re
import core, path
import c18_repro

RULE = ("no exception leaves a thread's entry function and every catch-all there passes the exception on (stored, or put into the worker's own promise, exactly once); stored exceptions and futures are rethrown unconditionally, after all workers were joined or heard from; "
        "every flag a worker waits for is raised, with notification and after the sign to give up, before the threads are joined, and whatever else is waited for is published by the failing worker too; every thread is joined")
TECHNIQUE = "exception and path analysis of thread entry functions and their controllers on the control flow graph, with must-summaries over the call graph"
LEVEL = "abstraction"

PUB = {"store", "test_and_set", "fetch_add", "fetch_sub", "exchange", "operator=", "operator++", "operator--", "operator+=", "operator-="}
ALLOC = re.compile(r"(emplace|emplace_back|emplace_hint|push_back|push_front|insert|insert_or_assign|try_emplace|resize|reserve|assign|append|at|make_unique|make_shared|to_string|rethrow_exception|stoi|stoul|stod)$")


def norm(c):
    return re.sub(r"<.*", "", c or "")


def last(n):
    return (n.get("fn") or "").rsplit("::", 1)[-1]


def atomic(n):
    return n["k"] == "Call" and re.match(r"std::(__atomic_\w+|atomic\w*|atomic)(::|<)", n.get("fn", "")) is not None


def covered(f, i):
    """the node is inside the body of a try whose handlers catch everything"""
    par = f.parents()
    x = i
    while x is not None:
        p = par.get(x)
        if p is not None and f.N[p]["k"] == "Try" and f.N[p].get("body") == x and any(f.N[h].get("all") for h in f.N[p]["hs"]):
            return p
        x = p
    return None


def mem(f, i):
    """qualified field an expression names"""
    i = core_strip(f, i)
    n = f.N[i] if i is not None and i >= 0 else None
    return n.get("fd") if n is not None and n["k"] == "Mem" else None


def core_strip(f, i):
    while i is not None and i >= 0:
        n = f.N[i]
        if n["k"] in ("Cast", "ICast", "Paren", "Expr", "Clean", "Bind", "Mat") and len(n.get("c", [])) == 1:
            i = n["c"][0]
        elif n["k"] == "Ctor" and len(n.get("a", [])) == 1:
            i = n["a"][0]
        else:
            break
    return i


def loops(f, i):
    """loops round a node, innermost first"""
    par = f.parents()
    out = []
    x = par.get(i)
    while x is not None:
        if f.N[x]["k"] in ("RangeFor", "For", "While", "Do"):
            out.append(x)
        x = par.get(x)
    return out


def head(f, lp):
    """a node evaluated when a loop is come to, whatever the number of turns"""
    n = f.N[lp]
    c = n.get("range") if n["k"] == "RangeFor" else n.get("cond")
    return [c] if c is not None and c >= 0 else []


def covers(f, lp):
    """does a loop visit everything: True, False, or None when not clear"""
    n = f.N[lp]
    if n["k"] == "RangeFor":
        r = core_strip(f, n["range"])
        m = f.N[r]
        if m["k"] in ("Mem", "Ref"):
            return True
        if m["k"] == "Call" and re.search(r"std::(ranges::)?(views::)?.*(drop|take|subspan|first|last|span)", m.get("fn", "")):
            return False
        return None
    if n["k"] != "For":
        return None
    init, cond = n.get("init", -1), n.get("cond", -1)
    if init < 0 or cond < 0:
        return None
    start = [f.N[j].get("val", f.N[j].get("v")) for j in f.walk(init) if f.N[j]["k"] in ("Int", "Lit")]
    import pp
    t = pp.ex(f, init)
    m = re.search(r"=\s*(\d+)|\{(\d+)\}", t)
    if m:
        v = int(m.group(1) or m.group(2))
        if v != 0:
            return False
        c = pp.ex(f, cond)
        if re.search(r"(<|!=)\s*[\w\.\->]*size\(\)\)*$", c):
            return True
        if re.search(r"size\(\)\s*-", c):
            return False
        return None
    if "begin()" in t:
        return True
    return None


class Threads:
    def __init__(self, prog):
        self.prog = prog
        self.entries = c18_repro.entries(prog)
        self.lib = [f for f in prog.live() if f.body >= 0 and not f.get("dep")]
        self.tg = {}
        self.callers = {}
        for f in self.lib:
            for i in f.all_nodes():
                if f.N[i]["k"] in ("Call", "Ctor"):
                    for t in prog.targets(f.N[i]):
                        self.callers.setdefault(t, []).append((f, i))
        self.reach = set()
        st = [k for k in self.entries]
        while st:
            k = st.pop()
            if k in self.reach:
                continue
            self.reach.add(k)
            f = prog.F[k]
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] in ("Call", "Ctor"):
                    st.extend(t for t in prog.targets(n) if t in prog.F)
                elif n["k"] == "Lambda" and n.get("f") in prog.F:
                    st.append(n["f"])
        self.wcls = {norm(prog.F[k].get("cls")) for k in self.entries} - {""}
        # functions that (can) join threads, that launch them
        self.joins = self.closure(lambda f, n: n["k"] == "Call" and re.match(r"std::(jthread|thread)::join$", n.get("fn", "")))
        self.launch = self.closure(lambda f, n: n["k"] == "Ctor" and n.get("cls") in ("std::thread", "std::jthread") and bool(n.get("a")) and
                                   any(f.N[x].get("f") in self.entries for a in n["a"] for x in f.walk(a)))
        self.thr = {}
        self.must = {}

    def closure(self, pred):
        """functions that contain an event, directly or in what they call: key -> nodes"""
        out = {}
        st = []
        for f in self.lib:
            e = [i for i in f.all_nodes() if pred(f, f.N[i])]
            if e:
                out[f.key] = set(e)
                st.append(f.key)
        while st:
            k = st.pop()
            for f, i in self.callers.get(k, []):
                if f.key not in out:
                    out[f.key] = set()
                    st.append(f.key)
                out[f.key].add(i)
        return out

    def can_throw(self, k, stack=()):
        if k in self.thr:
            return self.thr[k]
        f = self.prog.F.get(k)
        if f is None or f.get("nothrow") or k in stack or len(stack) > 40:
            return None
        r = None
        for i in f.all_nodes():
            if covered(f, i) is None:
                r = self.throws(f, i, stack + (k,))
                if r:
                    break
        if not stack or r:
            self.thr[k] = r
        return r

    def throws(self, f, i, stack=()):
        n = f.N[i]
        if n["k"] == "Throw":
            return f.loc(i)
        if n["k"] == "New":
            return f.loc(i)
        if n["k"] in ("Call", "Ctor"):
            fn = n.get("fn") or ""
            if fn.startswith("std::"):
                return f.loc(i) if ALLOC.search(last(n)) and not atomic(n) else None
            for t in self.prog.targets(n):
                r = self.can_throw(t, stack)
                if r:
                    return r
        return None

    def events(self, f, pred, tag, depth=0):
        """nodes of f at which an event surely happens: the event itself, or a call of a function on whose every path it happens"""
        out = []
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] not in ("Call", "Ctor", "Assign", "Op", "Un", "OpCall"):
                continue
            if pred(f, i):
                out.append(i)
            elif n["k"] in ("Call", "Ctor") and depth < 4:
                ts = [t for t in self.prog.targets(n) if t in self.prog.F]
                if ts and all(self.always(t, pred, tag, depth + 1) for t in ts):
                    out.append(i)
                elif ts and isinstance(pred, Event) and i in self.handed(f, pred):
                    out.append(i)
        return out

    def handed(self, f, pred):
        """calls that pass the field to a function that surely does the thing to its parameter"""
        out = []
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or atomic(n):
                continue
            for k, a in enumerate(n.get("a", [])):
                if mem(f, a) != pred.fd:
                    continue
                ts = [t for t in self.prog.targets(n) if t in self.prog.F]
                good = bool(ts)
                for t in ts:
                    g = self.prog.F[t]
                    if g.cfg is None or g.body < 0 or k >= len(g.params) or "&" not in g.T[g.params[k]["t"]]:
                        good = False
                        break
                    v = g.params[k]["v"]
                    ev = [j for j in g.all_nodes() if atomic(g.N[j]) and pred.kind(last(g.N[j])) and g.N[j].get("o", -1) >= 0
                          and g.N[core_strip(g, g.N[j]["o"])]["k"] == "Ref" and g.N[core_strip(g, g.N[j]["o"])].get("v") == v]
                    good = good and bool(ev) and from_entry(g, ev)
                if good:
                    out.append(i)
        return out

    def always(self, k, pred, tag, depth):
        key = (k, tag)
        if key not in self.must:
            self.must[key] = False
            g = self.prog.F[k]
            if g.cfg is not None and g.body >= 0:
                ev = self.events(g, pred, tag, depth)
                if ev:
                    self.must[key] = from_entry(g, ev)
        return self.must[key]


def from_entry(g, ev):
    """every normal path through g passes one of the nodes"""
    c = g.cfg
    evb = {p[0] for p in (path._pos(g, x) for x in ev) if p is not None}
    st, seen = [c.entry], set()
    while st:
        x = st.pop()
        if x in seen or x in evb:
            continue
        seen.add(x)
        if x == c.exit:
            return False
        st.extend(c.succ[x])
    return True


def obj(f, i):
    return mem(f, f.N[i].get("o", -1))


class Event:
    """a call of an atomic's member, on field fd"""
    def __init__(self, fd, kind):
        self.fd, self.kind = fd, kind

    def __call__(self, f, i):
        return atomic(f.N[i]) and self.kind(last(f.N[i])) and obj(f, i) == self.fd


def is_pub(fd):
    return Event(fd, lambda m: m in PUB)


def is_note(fd):
    return Event(fd, lambda m: m.startswith("notify"))


def short(fd):
    return fd.rsplit("::", 1)[-1]


def handlers(f):
    return [(t, h) for t in f.all_nodes() if f.N[t]["k"] == "Try" for h in f.N[t]["hs"]]


def stores_exception(f, i):
    """fields that receive the exception being handled at node i"""
    n = f.N[i]
    if n["k"] == "Call" and last(n) == "operator=" and n.get("fn", "").startswith("std::") or n["k"] in ("Assign", "Op") and n.get("op", "=") == "=":
        kids = f.kids(i)
        if any(f.N[j]["k"] == "Call" and f.N[j].get("fn") == "std::current_exception" for j in f.walk(i)):
            for k in ([n.get("o")] if n.get("o", -1) >= 0 else []) + list(n.get("a", []) or []) + list(kids):
                fd = mem(f, k)
                if fd:
                    return fd
    return None


def check(prog, rep, tier):
    T = Threads(prog)
    if not T.entries:
        rep.note("no thread entry functions", "")
        return
    done = set()
    xfields, promises = {}, {}
    for k in sorted(T.entries):
        f = prog.F[k]
        if f.cfg is None or f.get("dep"):
            continue
        entry(prog, T, f, rep, xfields, promises)
    for k in sorted(T.reach):
        f = prog.F[k]
        if k not in T.entries and f.cfg is not None and not f.get("dep"):
            swallowed(T, f, rep, xfields, promises)
    rethrown(prog, T, rep, xfields)
    futures(prog, T, rep)
    waits(prog, T, rep)
    joined(prog, T, rep)


def entry(prog, T, f, rep, xfields, promises):
    bad = None
    par = f.parents()
    for i in f.all_nodes():
        if covered(f, i) is not None:
            continue
        n = f.N[i]
        if n["k"] == "Call" and last(n) in ("set_exception", "set_value") and "promise" in n.get("fn", ""):
            continue
        w = T.throws(f, i)
        if w:
            bad = (i, w)
            break
    rep.add(bad is None, "escape", f.short, f.loc(bad[0]) if bad else f.loc(), "" if bad is None else
            "an exception (%s) can leave the thread's entry function %s: the program is terminated" % (bad[1], f.short))
    swallowed(T, f, rep, xfields, promises)
    # promises
    sets = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and re.match(r"std::promise\b.*::set_(value|exception)", f.N[i].get("fn", ""))]
    for i in sets:
        o = core_strip(f, f.N[i].get("o", -1))
        own = f.N[o]["k"] == "Mem" and all(f.N[j]["k"] in ("Mem", "This", "Cast", "ICast") for j in f.walk(o)) and sum(1 for j in f.walk(o) if f.N[j]["k"] == "Mem") == 1
        rep.add(own, "own-promise", "%s|%s" % (f.short, f.loc(i)), f.loc(i), "" if own else "%s sets a promise that is not its own: set a second time it terminates the program" % f.short)
    for t in f.all_nodes():
        if f.N[t]["k"] != "Try":
            continue
        body = set(f.walk(f.N[t]["body"]))
        vals = {}
        for i in sets:
            if i in body and last(f.N[i]) == "set_value":
                vals.setdefault(obj(f, i), []).append(i)
        for fd, vs in vals.items():
            first = min((j for j in body if path._pos(f, j) is not None), key=lambda j: (path._pos(f, j)[0] != path._pos(f, vs[0])[0], path._pos(f, j)[1]), default=None)
            outer = [i for i in sets if obj(f, i) == fd]
            ok = skipped(f, t, body, outer) is None
            rep.add(ok, "answered", "%s|%s" % (f.short, short(fd)), f.loc(vs[0]), "" if ok else "%s can finish without setting `%s`, for which the caller waits" % (f.short, short(fd)))
            late = None
            for v in vs:
                for j in body:
                    if j != v and f.N[j]["k"] in ("Call", "Ctor") and path.reach(f, v, j) and T.throws(f, j):
                        late = j
            rep.add(late is None, "answered-once", "%s|%s" % (f.short, short(fd)), f.loc(vs[0]), "" if late is None else
                    "%s can fail (%s) after it has set `%s`, and then sets it again" % (f.short, f.loc(late), short(fd)))
            for h in f.N[t]["hs"]:
                ex = [i for i in sets if obj(f, i) == fd and last(f.N[i]) == "set_exception"]
                ok = path.after(f, h, ex)
                rep.add(ok is True, "transferred", "%s|%s" % (f.short, short(fd)), f.loc(h), "" if ok is True else "the handler in %s can end without passing the exception to `%s`" % (f.short, short(fd)))


def skipped(f, t, body, outer):
    """a path from the start of a try's body out of the function that sets none of the given"""
    pos = [path._pos(f, j) for j in body]
    blocks = {p[0] for p in pos if p is not None}
    if not blocks:
        return None
    c = f.cfg
    firsts = [b for b in blocks if any(p not in blocks for p in c.pred[b])]
    evb = {p[0] for p in (path._pos(f, x) for x in outer) if p is not None}
    st, seen = list(firsts), set()
    while st:
        x = st.pop()
        if x in seen or x in evb:
            continue
        seen.add(x)
        if x == c.exit:
            return x
        st.extend(c.succ[x])
    return None


def swallowed(T, f, rep, xfields, promises):
    """a handler for everything on a worker's thread passes the exception on"""
    for t, h in handlers(f):
        if not f.N[h].get("all"):
            continue
        inside = set(f.walk(h))
        ev = []
        for i in inside:
            n = f.N[i]
            if n["k"] == "Throw" or n["k"] == "Call" and n.get("fn") == "std::rethrow_exception":
                ev.append(i)
                if f.key in T.entries:
                    rep.bad("escape", "%s|handler" % f.short, f.loc(i), "the handler in the thread's entry function %s throws: the program is terminated" % f.short)
            elif n["k"] == "Call" and last(n) == "set_exception":
                ev.append(i)
            else:
                fd = stores_exception(f, i)
                if fd:
                    ev.append(i)
                    xfields.setdefault(fd, []).append((f, i))
        # a helper that stores it
        for i in inside:
            if f.N[i]["k"] == "Call":
                for g in T.prog.targets(f.N[i]):
                    g = T.prog.F.get(g)
                    if g is not None:
                        for j in g.all_nodes():
                            fd = stores_exception(g, j)
                            if fd:
                                ev.append(i)
                                xfields.setdefault(fd, []).append((g, j))
                            elif g.N[j]["k"] == "Call" and last(g.N[j]) == "set_exception":
                                ev.append(i)
        ok = bool(ev) and path.after(f, h, ev) is True
        rep.add(ok, "passed-on", "%s|%s" % (f.short, f.loc(h)), f.loc(h), "" if ok else "the handler in %s can end without passing the exception on: the failure is lost" % f.short)


def mentions(f, i, fd):
    return any(f.N[j]["k"] == "Mem" and f.N[j].get("fd") == fd for j in f.walk(i))


def carried(f, i, fd):
    """(local variable, the places it takes the worker's exception), if what is rethrown at i is a local that only ever holds that"""
    vs = {f.N[j]["v"] for j in f.walk(i) if f.N[j]["k"] == "Ref" and f.N[j].get("dk") == "local"}
    if len(vs) != 1:
        return None
    v = vs.pop()
    takes = []
    for j in f.all_nodes():
        n = f.N[j]
        if n["k"] == "Decl":
            for d in n["vars"]:
                if d["v"] == v and d.get("i", -1) >= 0:
                    if mentions(f, d["i"], fd):
                        takes.append(j)
                    elif any(f.N[x]["k"] in ("Ref", "Mem") for x in f.walk(d["i"])):
                        return None
        elif n["k"] == "Call" and n.get("op") == "=" and n.get("o", -1) >= 0 and f.N[core_strip(f, n["o"])].get("v") == v:
            if not mentions(f, j, fd):
                return None
            takes.append(j)
    return (v, takes) if takes else None


def present(f, c, v):
    """True if the condition says that v holds an exception, False if it says that it holds none, None if it says more"""
    c = core_strip(f, c)
    n = f.N[c]
    if n["k"] == "Ref":
        return True if n.get("v") == v else None
    if n["k"] == "Un" and n.get("op") == "!":
        r = present(f, n["c"][0], v)
        return None if r is None else not r
    kids = [k for k in f.kids(c) if k >= 0]
    op = n.get("op")
    if op in ("==", "!=") or n["k"] == "Call" and last(n) in ("operator==", "operator!="):
        if not any(f.N[j]["k"] == "Ref" and f.N[j].get("v") == v for j in f.walk(c)) or any(f.N[j]["k"] in ("Ref", "Mem") and f.N[j].get("v") != v for j in f.walk(c)):
            return None
        return op == "!=" or last(n) == "operator!="
    if len(kids) == 1:
        return present(f, kids[0], v)
    return None


def conditional(f, i, fd, v, take=False):
    """a condition around i beyond whether there is an exception"""
    par = f.parents()
    x, bad, guarded = i, None, False
    while x is not None:
        p = par.get(x)
        if p is not None and f.N[p]["k"] == "If" and x in (f.N[p].get("then"), f.N[p].get("else")):
            cond = list(f.walk(f.N[p]["cond"]))
            mm = {f.N[j].get("fd") for j in cond if f.N[j]["k"] == "Mem" and f.N[j].get("fd")}
            own = v is not None and any(f.N[j]["k"] == "Ref" and f.N[j].get("v") == v for j in cond)
            lits = [j for j in cond if f.N[j]["k"] in ("Bin", "Op") and f.N[j].get("op") in ("&&",)]
            neg = f.N[p].get("else", -1) == x
            if own and not mm:
                guarded = True
                r = present(f, f.N[p]["cond"], v)
                if r is None or (r != neg) == take:
                    bad = p
            else:
                guarded = guarded or fd in mm
                if fd not in mm or neg and "!" not in str([f.N[j].get("op") for j in cond]):
                    bad = p
                # several may be asked together when taking: is there one already, and is there one here
                if lits and not (take and own and mm <= {fd}):
                    bad = p
        x = p
    if take and not guarded and loops(f, i) and f.N[i]["k"] != "Decl":
        bad = i
    return bad


def rethrown(prog, T, rep, xfields):
    for fd in sorted(xfields):
        where, carry = [], {}
        for f in T.lib:
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Call" and n.get("fn") == "std::rethrow_exception":
                    if mentions(f, i, fd):
                        where.append((f, i))
                    elif carried(f, i, fd):
                        where.append((f, i))
                        carry[(f.key, i)] = carried(f, i, fd)
        src = xfields[fd][0]
        rep.add(bool(where), "rethrown", fd, src[0].loc(src[1]), "" if where else "the exception %s keeps in `%s` is never rethrown to the caller" % (src[0].short, short(fd)))
        byfn = {}
        # every controller that launches this worker class rethrows (per instance of a template)
        cls = norm(fd.rsplit("::", 1)[0])
        for f, i in where:
            byfn.setdefault(f.key, []).append(i)
        for f in T.lib:
            if f.key in T.launch and f.key not in T.reach and norm(f.get("cls")) not in T.wcls and not f.get("ctor"):
                for i in T.launch[f.key]:
                    if not launches(T, f, i, cls):
                        continue
                    if f.get("cls") and not norm(f.get("cls")) == norm(cls) or not f.get("cls"):
                        rs = [r for r in byfn.get(f.key, [])]
                        if not rs and callers_check(T, f, byfn):
                            continue
                        rep.add(bool(rs), "rethrown", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if rs else "%s starts workers but does not rethrow the exception they keep in `%s`" % (f.short, short(fd)))
                        if rs:
                            ev = []
                            for r in rs:
                                for r in carry.get((f.key, r), (None, [r]))[1]:
                                    ls = loops(f, r)
                                    ev += head(f, ls[-1]) if ls else [r]
                            ok = path.after(f, i, ev)
                            rep.add(ok is True, "rethrown", "%s|%s|every path" % (f.short, short(fd)), f.loc(i), "" if ok is True else "%s can return without looking at the exception workers keep in `%s`" % (f.short, short(fd)))
        for f, i in where:
            v, takes = carry.get((f.key, i), (None, [i]))
            bad = conditional(f, i, fd, v)
            for t in takes:
                if v is not None:
                    # the first one that is there is kept: none written over by what a later worker left
                    bad = bad if bad is not None else conditional(f, t, fd, v, take=True)
            if v is not None and bad is None:
                gate = [i] + [j for k in f.all_nodes() if f.N[k]["k"] == "If" and present(f, f.N[k]["cond"], v) is not None and not any(t in f.walk(k) and t not in f.walk(f.N[k]["cond"]) and f.N[t]["k"] != "Decl" for t in takes) for j in f.walk(f.N[k]["cond"])]
                for t in takes:
                    bad = bad if path.after(f, t, gate) is True else t
            rep.add(bad is None, "rethrown", "%s|%s|unconditional" % (f.short, short(fd)), f.loc(i), "" if bad is None else "%s rethrows what is kept in `%s` only under a further condition" % (f.short, short(fd)))
            for t in takes:
                ls = loops(f, t)
                if ls:
                    c = covers(f, ls[0])
                    if c is None:
                        rep.note("loop form not recognised", "%s %s" % (f.short, f.loc(ls[0])))
                    else:
                        rep.add(c, "every-worker", "%s|%s" % (f.short, short(fd)), f.loc(ls[0]), "" if c else "%s does not look at every worker's exception" % f.short)
            ok = path.before(f, i, join_events(T, f, i))
            rep.add(ok, "joined-first", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if ok else "%s rethrows a worker's exception while other workers may still be running" % f.short)


def launches(T, f, i, cls):
    """does the call launch workers of that class"""
    seen = set()

    def go(f, i, d):
        n = f.N[i]
        if n["k"] == "Ctor" and n.get("cls") in ("std::thread", "std::jthread"):
            return any(norm(T.prog.F[f.N[x]["f"]].get("cls")) == cls or cls in T.prog.F[f.N[x]["f"]].name for a in n["a"] for x in f.walk(a) if f.N[x].get("f") in T.entries)
        if d > 4:
            return False
        for t in T.prog.targets(n):
            if t in T.launch and t not in seen and norm(T.prog.F[t].get("cls")) in T.wcls:
                seen.add(t)
                g = T.prog.F[t]
                if any(go(g, j, d + 1) for j in T.launch[t]):
                    return True
        return False
    return go(f, i, 0)


def callers_check(T, f, byfn):
    """a function that only launches: all of its callers look at the exceptions"""
    cs = [g for g, _ in T.callers.get(f.key, [])]
    return (bool(cs) and all(g.key in byfn for g in cs)) or any(k in byfn for k in controlled(T, f))


def controlled(T, f):
    """other functions of the same class"""
    return [g.key for g in T.lib if g.get("cls") and g.get("cls") == f.get("cls") and g.key != f.key]


def join_events(T, f, r):
    """nodes that stand for `all workers have been joined` in front of node r"""
    ls = set(loops(f, r))
    out = []
    for i in T.joins.get(f.key, ()):
        mine = loops(f, i)
        if f.N[i]["k"] != "Call" and f.N[i]["k"] != "Ctor":
            continue
        tg = [t for t in T.prog.targets(f.N[i]) if t in T.joins]
        whole = any(any(loops(T.prog.F[t], j) for j in T.joins[t]) for t in tg)
        if whole:
            out.append(i)
        elif mine:
            if not (set(mine) & ls):
                out += head(f, mine[-1])
            else:
                inner = [l for l in mine if l not in ls]
                if inner:
                    out += head(f, inner[-1])
        else:
            out.append(i)
    return out


def futures(prog, T, rep):
    """what a worker promised is fetched, for every worker, once all have answered"""
    fields = {}
    for r in prog.R.values():
        for x in r["fields"]:
            if re.search(r"std::(shared_)?future<", x["t"]) and r["name"].startswith("Moment"):
                fields.setdefault("%s::%s" % (r["name"], x["n"]), r)
    got = {}

    def param(f, h):
        """which parameter of f, taken by reference, is looped over"""
        if h is None or h < 0:
            return None
        x = core_strip(f, h)
        if f.N[x]["k"] == "Ref":
            for k, p in enumerate(f.params):
                if p["v"] == f.N[x].get("v") and "&" in f.T[p["t"]]:
                    return k
        return None

    handed = {}
    for f in T.lib:
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call":
                continue
            for k, a in enumerate(n.get("a", [])):
                fd = mem(f, a) if a >= 0 else None
                if fd in fields:
                    for t in prog.targets(n):
                        handed.setdefault((t, k), []).append((fd, f, i))
    for f in T.lib:
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and re.match(r"std::(__basic_|shared_)?future\b.*::(get|wait)$", n.get("fn", "")):
                ls = loops(f, i)
                for lp in ls:
                    h = f.N[lp].get("range", -1)
                    fd = mem(f, h) if h is not None and h >= 0 else None
                    if fd is None and f.N[lp]["k"] == "For":
                        for j in f.walk(i):
                            if f.N[j]["k"] == "Mem" and f.N[j].get("fd"):
                                fd = f.N[j]["fd"]
                    if fd:
                        got.setdefault(fd, []).append((f, i, last(n), lp))
                        break
                    hs = handed.get((f.key, param(f, h)), ())
                    if hs:
                        for fd in sorted({x[0] for x in hs}):
                            got.setdefault(fd, []).append((f, i, last(n), lp))
                        break
                else:
                    fd = next((f.N[j]["fd"] for j in f.walk(i) if f.N[j]["k"] == "Mem" and f.N[j].get("fd")), None)
                    if fd:
                        got.setdefault(fd, []).append((f, i, last(n), None))
    seen = set()
    for fd in sorted(fields):
        nm = norm(fd.rsplit("::", 1)[0]) + "::" + short(fd)
        if nm in seen:
            continue
        seen.add(nm)
        gets = [x for y in got for x in got[y] if norm(y.rsplit("::", 1)[0]) + "::" + short(y) == nm]
        g = [x for x in gets if x[2] == "get"]
        w = [x for x in gets if x[2] == "wait"]
        if not gets and not any(f.cfg is not None and any(f.N[j]["k"] == "Mem" and short(f.N[j].get("fd") or "?::?") == short(fd) for j in f.all_nodes()) for f in T.lib if norm(f.get("cls")) == norm(fd.rsplit("::", 1)[0])):
            continue
        where = (g or w or [None])[0]
        rep.add(bool(g), "fetched", nm, where[0].loc(where[1]) if where else "", "" if g else "the results promised in `%s` are never fetched: a worker's exception is lost" % short(fd))
        for f, i, _, lp in g:
            if lp is not None:
                c = covers(f, lp)
                if c is None:
                    rep.note("loop form not recognised", "%s %s" % (f.short, f.loc(lp)))
                else:
                    rep.add(c, "every-worker", "%s|%s" % (f.short, short(fd)), f.loc(lp), "" if c else "%s does not fetch every worker's result" % f.short)
                x, par, cond = i, f.parents(), None
                while x is not None and x != lp:
                    p = par.get(x)
                    if p is not None and f.N[p]["k"] == "If" and x != f.N[p].get("cond"):
                        cond = p
                    x = p
                rep.add(cond is None, "fetched", "%s|%s|unconditional" % (f.short, short(fd)), f.loc(i), "" if cond is None else "%s fetches a worker's result only under a condition" % f.short)
                ev = []
                for f2, i2, _, l2 in w:
                    if f2 is f and l2 is not None and l2 not in loops(f, i) and covers(f, l2) is not False:
                        ev += head(f, l2)
                # a helper that waits for all
                for j in f.all_nodes():
                    if f.N[j]["k"] == "Call":
                        for t in prog.targets(f.N[j]):
                            if any(f2.key == t and l2 is not None for f2, i2, _, l2 in w):
                                ev.append(j)
                ev += join_events(T, f, i)
                ok = path.before(f, i, ev)
                if not ok:
                    # waited for by those who call a helper that fetches
                    cs = {(g.key, j): g for (t, k), hs in handed.items() if t == f.key for _, g, j in hs}
                    ok = bool(cs)
                    for (gk, j), g in cs.items():
                        ev = [y for f2, i2, _, l2 in w if f2 is g and l2 is not None and covers(g, l2) is not False for y in head(g, l2)]
                        ev += [y for y in g.all_nodes() if y != j and g.N[y]["k"] == "Call" and any(f2.key == t and l2 is not None for t in prog.targets(g.N[y]) for f2, i2, _, l2 in w)]
                        ok = ok and path.before(g, j, ev + join_events(T, g, j))
                rep.add(ok, "answered-first", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if ok else "%s rethrows one worker's exception while others may still be writing to the caller's memory" % f.short)


def waits(prog, T, rep):
    W = {}
    for f in T.lib:
        for i in f.all_nodes():
            n = f.N[i]
            if atomic(n) and last(n) == "wait":
                fd = obj(f, i)
                if fd:
                    W.setdefault(fd, []).append((f, i))
    for fd in sorted(W):
        owner = norm(fd.rsplit("::", 1)[0])
        pub, note = is_pub(fd), is_note(fd)
        wide = False
        for f, i in W[fd]:
            if f.key in T.reach and owner not in T.wcls:
                wide = True
        # published with notification
        for f in T.lib:
            ps = [i for i in f.all_nodes() if pub(f, i)] + T.handed(f, pub)
            if not ps:
                continue
            ns = T.events(f, note, ("note", fd))
            for i in ps:
                if f.get("ctor"):
                    continue
                if path.before(f, i, list(T.joins.get(f.key, ()))) and f.key in T.joins and not any(path.reach(f, i, j) for j in T.joins[f.key]):
                    continue
                if f.key in T.launch and path.after(f, i, launch_heads(T, f)) is True:
                    continue
                ok = i in ns or path.after(f, i, ns) is True
                if not ok:
                    cs = T.callers.get(f.key, [])
                    ok = bool(cs) and all(path.after(g, j, T.events(g, note, ("note", fd))) is True for g, j in cs)
                rep.add(ok, "notified", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if ok else "%s changes `%s` and can return without waking those who wait for it" % (f.short, short(fd)))
            if wide:
                for i in f.all_nodes():
                    if note(f, i):
                        ok = last(f.N[i]) == "notify_all"
                        rep.add(ok, "notified-all", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if ok else "%s wakes only one of the workers that wait for `%s`" % (f.short, short(fd)))
        # who releases the waiting if something fails
        if wide:
            dts = [f for f in T.lib if f.get("dtor") and norm(f.get("cls")) == owner]
            js = [f for f in dts if f.key in T.joins]
            loc = W[fd][0][0].loc(W[fd][0][1])
            if not js:
                rep.bad("released", "%s" % fd, loc, "workers wait for `%s` but %s joins no threads when it is destroyed" % (short(fd), owner)) if dts or True else None
            flags = set()
            for f, i in W[fd]:
                if f.key not in T.reach:
                    continue
                calls = [j for j in f.all_nodes() if f.N[j]["k"] in ("Call", "Ctor") and lib_call(prog, f, j)]
                ok = path.after(f, i, calls) is not True
                rep.add(ok, "gives-up", "%s|%s" % (f.short, short(fd)), f.loc(i), "" if ok else "woken from waiting for `%s`, %s goes on to work even if the operation has been given up" % (short(fd), f.short))
                if ok:
                    for j in f.all_nodes():
                        if atomic(f.N[j]) and last(f.N[j]) in ("load", "test", "operator bool", "operator __integral_type") and path.reach(f, i, j, calls):
                            o = obj(f, j)
                            if o and o != fd and norm(o.rsplit("::", 1)[0]) == owner:
                                flags.add(o)
            for d in js:
                ok, where = released(prog, T, d, fd, 0)
                rep.add(ok, "released", "%s|%s" % (d.short, short(fd)), d.loc(where) if isinstance(where, int) else d.loc(), "" if ok else
                        "%s joins threads that may still be waiting for `%s`" % (d.short, short(fd)))
                if ok and flags:
                    okf = any(ordered(prog, T, d, a, fd, 0) for a in flags)
                    rep.add(okf, "given-up-first", "%s|%s" % (d.short, short(fd)), d.loc(), "" if okf else "%s raises `%s` before the sign to give up (%s): a woken worker goes on working" % (d.short, short(fd), ", ".join(sorted(map(short, flags)))))
        elif owner in T.wcls:
            # published by a worker: also by a failing one
            for k in sorted(T.entries):
                f = prog.F[k]
                if norm(f.get("cls")) != owner or f.cfg is None:
                    continue
                n = 0
                for t, h in handlers(f):
                    if not f.N[h].get("all"):
                        continue
                    if not publishes(prog, T, f, f.N[t]["body"], fd):
                        continue
                    n += 1
                    ps = T.events(f, pub, ("pub", fd))
                    ok = path.after(f, h, ps) is True
                    rep.add(ok, "published", "%s|%s" % (f.short, short(fd)), f.loc(h), "" if ok else "a failing worker (%s) does not publish `%s`, for which others wait" % (f.short, short(fd)))
                if not n:
                    rep.note("no handler round the publication", "%s %s" % (f.short, short(fd)))


def launch_heads(T, f):
    out = []
    for i in T.launch.get(f.key, ()):
        ls = loops(f, i)
        out += head(f, ls[-1]) if ls else [i]
    return out


def lib_call(prog, f, j):
    n = f.N[j]
    ts = [t for t in prog.targets(n) if t in prog.F]
    return bool(ts) and (n.get("fn") or n.get("cls") or "").startswith("Moment")


def publishes(prog, T, f, root, fd):
    C = T.closure_pub = getattr(T, "closure_pub", {})
    if fd not in C:
        p = is_pub(fd)
        C[fd] = T.closure(lambda g, n, p=p: atomic(n) and last(n) in PUB and mem(g, n.get("o", -1)) == fd)
    inside = set(f.walk(root))
    return bool(C[fd].get(f.key, set()) & inside)


def released(prog, T, d, fd, depth):
    """before every joining call in d the flag has been raised and those waiting woken"""
    ps = T.events(d, is_pub(fd), ("pub", fd))
    ns = T.events(d, is_note(fd), ("note", fd))
    for j in sorted(T.joins.get(d.key, ())):
        if d.N[j]["k"] == "Lambda":
            continue
        if path.before(d, j, ps) and path.before(d, j, ns):
            continue
        ts = [t for t in prog.targets(d.N[j]) if t in T.joins]
        if ts and depth < 4 and all(released(prog, T, prog.F[t], fd, depth + 1)[0] for t in ts):
            continue
        return False, j
    return True, None


def ordered(prog, T, d, a, fd, depth):
    """the sign to give up is raised before the flag"""
    pa = T.events(d, is_pub(a), ("pub", a))
    direct = [i for i in d.all_nodes() if is_pub(fd)(d, i)] + T.handed(d, is_pub(fd))
    if direct:
        return all(path.before(d, i, pa) for i in direct)
    if pa and any(path.before(d, j, pa) for j in T.joins.get(d.key, ())):
        return True
    return depth < 4 and any(ordered(prog, T, prog.F[t], a, fd, depth + 1) for j in T.joins.get(d.key, ()) for t in prog.targets(d.N[j]) if t in T.joins)


def joined(prog, T, rep):
    """whoever starts workers joins all of them"""
    jc = {norm(prog.F[k].get("cls")) for k in T.joins}
    for cls in sorted(T.wcls):
        holders = set()
        for f in T.lib:
            if f.key in T.launch and f.key not in T.reach:
                for i in T.launch[f.key]:
                    if launches(T, f, i, cls) and norm(f.get("cls")) != cls:
                        holders.add((f.key, i))
        for k, i in sorted(holders):
            f = prog.F[k]
            owner = norm(f.get("cls"))
            ev = join_events(T, f, i)
            # the launch is itself in a loop: joining must follow it, after the loop
            after = path.after(f, i, [e for e in all_join_heads(T, f)]) is True if f.key in T.joins else False
            if not after and owner:
                dts = [d for d in T.lib if d.get("dtor") and norm(d.get("cls")) == owner]
                after = bool(dts) and all(d.key in T.joins and from_entry(d, all_join_heads(T, d)) for d in dts)
            if not after:
                # a local object whose destructor joins, or callers that do
                made = norm((f.N[i].get("fn") or "").rsplit("::", 1)[0])
                dts = [d for d in T.lib if d.get("dtor") and norm(d.get("cls")) in (made, norm(f.N[i].get("cls")))]
                after = bool(dts) and all(d.key in T.joins for d in dts)
            rep.add(after, "joined", "%s|%s" % (f.short, cls.rsplit("::", 1)[-1]), f.loc(i), "" if after else "%s starts threads that nobody is sure to join" % f.short)
    for k in sorted(T.joins):
        f = prog.F[k]
        for i in sorted(T.joins[k]):
            ls = loops(f, i)
            if not ls or f.get("dep"):
                continue
            c = covers(f, ls[0])
            if c is None:
                rep.note("loop form not recognised", "%s %s" % (f.short, f.loc(ls[0])))
            else:
                rep.add(c, "joins-all", f.short, f.loc(ls[0]), "" if c else "%s does not join every worker" % f.short)


def all_join_heads(T, f):
    out = []
    for i in T.joins.get(f.key, ()):
        ls = loops(f, i)
        out += head(f, ls[-1]) if ls else [i]
    return out
