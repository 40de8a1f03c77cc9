"""C17: an operation that refuses its input does so before it has changed anything; what is undone on failure is undone completely; temporary modes end on every way out."""
import re
import core, effects, path
from c10_missing import strip, last, lib

RULE = ("in every operation that is not a constructor, no change of the object (a field, directly or by a call, creation of on-demand items aside) lies on a path to the operation's own throw of an exception or to its call of "
        "a function that only checks and throws; a handler that undoes a failed operation and passes the exception on gives every part of the object that was changed before or inside its try block its value back (and shrinks what "
        "was grown); a mode that has a function to switch it on and one to switch it off is switched off on every way out of the function that switched it on, exceptions included")
TECHNIQUE = "effect-before-throw path search on the control flow graph with interprocedural write effects; field balance of undoing handlers; must-pass search for paired mode switches"
LEVEL = "abstraction"

ONDEMAND = re.compile(r"(Indices\w*::create|MaintainsTensors::Refresh\w+|::(on_new_symbols_registered))$")
HARMLESS = {"reserve", "shrink_to_fit", "rehash", "lock", "unlock", "lock_shared", "unlock_shared"}
GROW = {"emplace_back", "push_back", "emplace", "insert", "try_emplace", "emplace_hint", "insert_or_assign", "push_front", "emplace_front", "append"}
SHRINK = {"pop_back", "erase", "clear", "resize", "assign", "pop_front", "operator=", "swap", "extract", "reset"}


def worker(f):
    return bool(re.search(r"[Ww]orker", f.short)) or "Multithreading" in (f.get("cls") or "")


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.E = effects.get(prog)
        self.fn = [f for f in prog.live() if lib(f)]
        self.own = {f.key: [i for i in f.all_nodes() if f.N[i]["k"] == "Throw" and f.N[i].get("c")] for f in self.fn}
        self.may = {k for k, v in self.own.items() if v}
        # virtual functions that every class overrides by refusing say nothing about what the others do: only bodies that can throw count
        ch = True
        while ch:
            ch = False
            for f in self.fn:
                if f.key in self.may or f.get("noexcept"):
                    continue
                for i in f.all_nodes():
                    n = f.N[i]
                    if n["k"] in ("Call", "Ctor") and any(t in self.may for t in prog.targets(n)):
                        self.may.add(f.key)
                        ch = True
                        break
        self.refs = {}
        self.mem = {}

    def fields_of(self, f):
        """fields of the object that are references or pointers to another object"""
        return set()

    def checks(self, key):
        """a function that only looks and throws: no result, throws itself, changes nothing of its object or globals"""
        g = self.p.F.get(key)
        if g is None or not self.own.get(key) or g.get("ctor") or g.get("dtor") or g.get("lambda"):
            return False
        if not re.match(r"void$", (g.T[g.d["rt"]] if "rt" in g.d else "").strip()):
            return False
        return not any(r == "this" or isinstance(r, str) and r.startswith("G:") for r, _ in self.E.W.get(key, {}))

    def inhandler(self, f, i):
        par = f.parents()
        while i is not None:
            if f.N[i]["k"] == "Catch":
                return True
            i = par.get(i)
        return False

    def intry(self, f, i):
        """innermost try round a node (in its body)"""
        par = f.parents()
        x = i
        while x is not None:
            p = par.get(x)
            if p is not None and f.N[p]["k"] == "Try" and f.N[p].get("body") == x:
                return p
            x = p
        return None

    def writes(self, f):
        """{node: set of field paths of the object changed there}"""
        if f.key in self.mem:
            return self.mem[f.key]
        self.mem[f.key] = ws = {}
        E = self.E
        for nid, root, fields in E.local_writes(f):
            if root == "this" and fields and not (f.N[nid]["k"] == "Call" and last(f.N[nid]) in HARMLESS):
                ws.setdefault(nid, set()).add(fields)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] not in ("Call", "Ctor") or ONDEMAND.search(re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "", n.get("fn") or "")):
                continue
            for t in self.p.targets(n):
                g = self.p.F.get(t)
                if g is None:
                    continue
                for r, fl in E.W.get(t, {}):
                    m = E.map_up(f, n, g, r, fl)
                    if m and m[0] == "this" and m[1] and not harmless_only(self, t, (r, fl)):
                        ws.setdefault(i, set()).add(m[1])
        for i in list(ws):
            ws[i] = {x for x in ws[i] if not self.other(f, x)}
            if not ws[i]:
                del ws[i]
        return ws

    def other(self, f, fields):
        """the first field is a reference to another object, a mutex, or not part of the value"""
        cls = f
        while cls is not None and cls.get("lambda"):
            cls = self.p.F.get(cls.get("parent", ""))
        fld = fieldinfo(self.p, (cls.get("cls") if cls is not None else "") or "", fields[0])
        if fld is None:
            return False
        t = fld
        return bool(t.rstrip().endswith("&") or re.search(r"std::(shared_)?mutex|std::atomic|std::condition_variable", t))

    def top(self, f, i):
        """first-level parts changed at a node"""
        return {x[0] for x in self.writes(f).get(i, ())}

    def dirty(self, key, seen=()):
        """parts of its object that a function can have changed when it throws"""
        if key in seen or len(seen) > 4:
            return set()
        f = self.p.F.get(key)
        if f is None or f.key not in self.may:
            return set()
        out = set()
        th = self.throwing(f)
        for i, s in self.writes(f).items():
            n = f.N[i]
            if any(t != i and path.reach(f, i, t) for t in th) or any(t == i and path.reach(f, i, i) for t in th):
                out |= {x[0] for x in s}
            elif n["k"] == "Call" and n.get("o", -1) >= 0 and f.N[strip(f, n["o"])]["k"] == "This":
                for t in self.p.targets(n):
                    out |= self.dirty(t, seen + (key,))
        return out

    def throwing(self, f):
        out = list(self.own.get(f.key, ()))
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] in ("Call", "Ctor") and any(t in self.may for t in self.p.targets(n)):
                out.append(i)
        return out


def harmless_only(T, key, eff, depth=4):
    """the effect comes from nothing but harmless calls"""
    e = T.E.W.get(key, {}).get(eff)
    f = T.p.F.get(key)
    if e is None or f is None or depth == 0:
        return False
    nid, via = e
    if via is None:
        n = f.N[nid]
        return n["k"] == "Call" and last(n) in HARMLESS and not any(
            (r, fl) == eff for x, r, fl in T.E.local_writes(f) if not (f.N[x]["k"] == "Call" and last(f.N[x]) in HARMLESS))
    return False


def fieldinfo(prog, cls, name):
    for c in [cls] + list(bases(prog, cls)):
        r = prog.R.get(c)
        if r is None:
            continue
        for x in r.get("fields", []):
            if x.get("n") == name:
                t = x.get("t")
                return t if isinstance(t, str) else str(t)
    return None


def bases(prog, cls, depth=6):
    r = prog.R.get(cls)
    if r is None or depth == 0:
        return
    for b in r.get("bases", []):
        n = b if isinstance(b, str) else b.get("n", "")
        yield n
        yield from bases(prog, n, depth - 1)


def check_first(T, rep):
    for f in T.fn:
        if f.get("ctor") or f.get("dtor") or f.get("lambda") or worker(f) or f.get("static"):
            continue
        if not f.get("cls"):
            continue
        th = [(t, "throws") for t in T.own.get(f.key, ()) if not T.inhandler(f, t)]
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and any(T.checks(t) for t in T.p.targets(n)) and not T.inhandler(f, i):
                th.append((i, "calls %s, which refuses by an exception," % last(n)))
        if not th:
            continue
        ws = T.writes(f)
        for t, how in th:
            bad = [i for i in sorted(ws) if i != t and path.reach(f, i, t)]
            msg = ""
            if bad:
                msg = "%s %s after %s was changed (%s): the refused request leaves its traces" % (
                    f.short, how, ".".join(x for x in sorted(ws[bad[0]])[0]), f.loc(bad[0]))
            rep.add(not bad, "check-first", "%s|%s" % (f.short, th.index((t, how))), f.loc(t), msg)


def restored(T, rep):
    for f in T.fn:
        if f.get("ctor") or f.get("dtor") or worker(f) or f.get("lambda") or not f.get("cls"):
            continue
        for t in f.all_nodes():
            if f.N[t]["k"] != "Try":
                continue
            body = set(f.walk(f.N[t]["body"]))
            for h in f.N[t]["hs"]:
                inh = set(f.walk(h))
                if not any(f.N[x]["k"] == "Throw" for x in inh):
                    continue
                ws = T.writes(f)
                back = set()
                shr = set()
                for i in ws:
                    if i in inh:
                        back |= T.top(f, i)
                for x in inh:
                    n = f.N[x]
                    if n["k"] == "Call" and last(n) in SHRINK | {"operator="} and n.get("o", -1) >= 0:
                        r, fl = effects.path_of(core.raw_path(f, n["o"], T.E.canon(f)), T.E.params(f))
                        if r == "this" and fl:
                            if last(n) != "swap" or len(fl) == 1:
                                shr.add(fl[0])
                    elif n["k"] == "Assign":
                        r, fl = effects.path_of(core.raw_path(f, n["c"][0], T.E.canon(f)), T.E.params(f))
                        if r == "this" and len(fl) == 1:
                            shr.add(fl[0])
                    elif n["k"] == "Call" and T.p.targets(n):
                        shr |= T.top(f, x)
                if not back:
                    continue            # passes on, promises nothing by itself
                th = [x for x in T.throwing(f) if x in body]
                changed, grown = {}, {}
                starts = [x for x in body if path._pos(f, x) is not None]
                for i, s in ws.items():
                    if i in inh:
                        continue
                    n = f.N[i]
                    if i in body:
                        live = any(x != i and path.reach(f, i, x) for x in th)
                        parts = {x[0] for x in s}
                        if not live:
                            parts = set()
                            if n["k"] == "Call":
                                for g in T.p.targets(n):
                                    parts |= T.dirty(g) & {x[0] for x in s}
                    else:
                        if not any(path.reach(f, i, x) for x in th):
                            continue
                        parts = {x[0] for x in s}
                    for q in parts:
                        changed.setdefault(q, i)
                    if n["k"] == "Call" and last(n) in GROW and not T.p.targets(n):
                        for x in s:
                            if len(x) == 1:
                                grown.setdefault(x[0], i)
                for q in sorted(changed):
                    good = q in back and (q not in grown or q in shr)
                    rep.add(good, "restored", "%s|%s" % (f.short, q), f.loc(changed[q]),
                            "" if good else "%s changes %s and on failure passes the exception on without giving it back" % (f.short, q))


def modes(T, rep):
    on, off = {}, {}
    for f in T.fn:
        if f.get("ctor") or f.get("dtor") or f.get("lambda") or not f.get("cls"):
            continue
        w = [x for x in T.E.local_writes(f) if x[1] == "this"]
        if len(w) != 1 or len(w[0][2]) != 1:
            continue
        n = f.N[w[0][0]]
        if n["k"] != "Assign":
            continue
        v = f.N[strip(f, n["c"][1])]
        if v["k"] != "Bool":
            continue
        val = str(v.get("val"))
        key = (f.get("cls"), w[0][2][0])
        if val == "1":
            on.setdefault(key, set()).add(f.key)
        elif val == "0":
            off.setdefault(key, set()).add(f.key)
    pairs = {k: (on[k], off[k]) for k in on if k in off}
    rep.note("mode pairs", ", ".join("%s::%s" % k for k in sorted(pairs)))
    for k, (a, b) in sorted(pairs.items()):
        # guards: classes whose destructor switches off
        guards = set()
        for d in T.fn:
            if d.get("dtor") and any(d.N[i]["k"] == "Call" and set(T.p.targets(d.N[i])) & b for i in d.all_nodes()):
                guards.add((d.get("cls") or "").rsplit("::", 1)[-1])
        for f in T.fn:
            if f.key in a or f.key in b:
                continue
            ons = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and set(T.p.targets(f.N[i])) & a]
            if not ons:
                continue
            offs = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and set(T.p.targets(f.N[i])) & b]
            gd = []
            for v, g in core.varinfo(f).items():
                if g.decl is not None and core.strip_cv(g.t).rsplit("::", 1)[-1] in guards:
                    gd.append(g.init if g.init is not None and path._pos(f, g.decl) is None else g.decl)
            if f.get("ctor") and (f.get("cls") or "").rsplit("::", 1)[-1] in guards:
                rep.add(True, "mode-ends", "%s|%s" % (f.short, k[1]), f.loc(ons[0]), "")
                continue
            for i in ons:
                def edge_ok(x, y, i=i):
                    c = core.edge_cond(f, x)
                    if c is None:
                        return True
                    s, neg = strip(f, c), False
                    while f.N[s]["k"] == "Bin" and f.N[s].get("op") in ("||", "&&"):
                        s = strip(f, f.N[s]["c"][1])
                    while f.N[s]["k"] == "Un" and f.N[s].get("op") == "!":
                        neg = not neg
                        s = strip(f, f.N[s]["c"][0])
                    on_ = s == i
                    if not on_ and f.N[s]["k"] == "Ref":
                        g = core.varinfo(f).get(f.N[s].get("v"))
                        on_ = g is not None and g.init is not None and strip(f, g.init) == i
                    if not on_:
                        return True
                    sc = f.cfg.b[x]["s"]
                    return sc.index(y) == (1 if neg else 0)
                good = path.after(f, i, offs + gd, edge_ok) is True
                msg = "" if good else "%s leaves %s switched on on some way out" % (f.short, k[1])
                if good:
                    for x in T.throwing(f):
                        if x == i or not path.reach(f, i, x, offs + gd, edge_ok):
                            continue
                        if x in offs or x in gd:
                            continue
                        # under a handler for everything that switches off
                        p, ok = x, False
                        par = f.parents()
                        while p is not None and not ok:
                            q = par.get(p)
                            if q is not None and f.N[q]["k"] == "Try" and f.N[q].get("body") == p:
                                ok = any(set(f.walk(h)) & set(offs) for h in f.N[q]["hs"] if f.N[h].get("all") or "exception" in (f.T[f.N[h]["ct"]] if "ct" in f.N[h] else ""))
                            p = q
                        if not ok:
                            good = False
                            msg = "%s leaves %s switched on when %s throws (%s)" % (f.short, k[1], last(f.N[x]) or "it", f.loc(x))
                            break
                rep.add(good, "mode-ends", "%s|%s" % (f.short, k[1]), f.loc(i), msg)


def check(prog, rep, tier):
    T = Ctx(prog)
    check_first(T, rep)
    restored(T, rep)
    modes(T, rep)
