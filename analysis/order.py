"""Abstract interpretation of two-argument comparators over a finite order domain.

Everything a comparator computes from one argument alone is a key; the same expression computed from the other argument is the same key of the other element.  A key is abstracted to its
rank in a small ordered domain (the constants it is compared with, their neighbours, and enough ranks to tell three elements apart), so the comparator becomes a finite decision table."""
import core

LESS = {"less", "operator<", "lexicographical_compare"}
MORE = {"greater", "operator>"}
CMP3 = {"approximately_compare", "compare", "operator<=>", "lexicographical_compare_three_way", "strcmp", "compare_three_way"}
PASS = {"static_cast", "move", "forward", "as_const", "ref", "cref"}


class Unknown(Exception):
    pass


class Mixed(Exception):
    def __init__(self, f, nid, text):
        Exception.__init__(self, text)
        self.f, self.nid, self.text = f, nid, text


class Need(Exception):
    def __init__(self, key, side):
        self.key, self.side = key, side


class Grow(Exception):
    pass


def sides(t):
    if isinstance(t, tuple):
        if t and t[0] == "p":
            return {t[1]}
        s = set()
        for x in t:
            if isinstance(x, tuple):
                s |= sides(x)
        return s
    return set()


def swap(t):
    if isinstance(t, tuple):
        if t and t[0] == "p":
            return ("p", 1 - t[1])
        return tuple(swap(x) if isinstance(x, tuple) else x for x in t)
    return t


def key_of(t):
    """the side-independent name of a one-sided term"""
    if isinstance(t, tuple):
        if t and t[0] == "p":
            return ("p", 0)
        return tuple(key_of(x) if isinstance(x, tuple) else x for x in t)
    return t


def leaves(t, out):
    if isinstance(t, tuple):
        if t and t[0] == ".":
            out.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                leaves(x, out)
    return out


class Interp:
    def __init__(self, prog, comparators=(), budget=4000):
        self.prog = prog
        self.cmp = set(comparators)
        self.dom = {}          # key -> set of constants compared with
        self.boolkeys = set()
        self.as_p = {}
        self.assign = {}
        self.steps = 0
        self.budget = budget

    # ------------------------------------------------------------------ model queries
    def domain(self, key):
        if key in self.boolkeys:
            return (0, 1)
        cs = self.dom.get(key, set())
        base = {0, 1, 2} if not self.small else {0, 1}
        if not cs:
            return tuple(sorted(base))
        d = set()
        for c in cs:
            d |= {c - 1, c, c + 1}
        if len(d) > 5:
            d = set(sorted(d)[:5])
        return tuple(sorted(d))

    small = False

    def value(self, key, side):
        if side == 2:
            k = (key, 2)
        else:
            k = (key, side)
        if key not in self.dom:
            self.dom[key] = set()
            raise Grow()
        if k in self.assign:
            return self.assign[k]
        raise Need(key, side)

    def const(self, key, c):
        if key not in self.dom or c not in self.dom[key]:
            self.dom.setdefault(key, set()).add(c)
            raise Grow()

    # ------------------------------------------------------------------ normal forms
    def norm(self, t):
        """(base term, sign, offset) with t = sign*base + offset in order"""
        sg, off = 1, 0
        while isinstance(t, tuple):
            if t[0] == "bin" and t[1] in ("+", "-") and isinstance(t[3], int):
                off += sg * (t[3] if t[1] == "+" else -t[3])
                t = t[2]
            elif t[0] == "bin" and t[1] == "+" and isinstance(t[2], int):
                off += sg * t[2]
                t = t[3]
            elif t[0] == "bin" and t[1] == "-" and not sides(t[2]) and sides(t[3]):
                if isinstance(t[2], int):
                    off += sg * t[2]
                sg = -sg
                t = t[3]
            elif t[0] == "un" and t[1] == "-":
                sg = -sg
                t = t[2]
            elif t[0] == "un" and t[1] == "+":
                t = t[2]
            elif t[0] == "?:" and t[2] == 1 and t[3] == 0:
                t = t[1]
            elif t[0] == "?:" and t[2] == 0 and t[3] == 1:
                sg = -sg
                off += -sg
                t = t[1]
            elif t[0] == "bin" and t[1] == "!=" and t[3] == 0:
                t = t[2]
            else:
                break
        return t, sg, off

    def relation(self, f, nid, a, b):
        """sign of a - b"""
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            return (a > b) - (a < b)
        if a == b:
            return 0
        if isinstance(b, int):
            return self.vs_const(f, nid, a, b)
        if isinstance(a, int):
            return -self.vs_const(f, nid, b, a)
        if a[0] == "pair" and b[0] == "pair" and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                r = self.relation(f, nid, x, y)
                if r:
                    return r
            return 0
        ta, sa, oa = self.norm(a)
        tb, sb, ob = self.norm(b)
        s1, s2 = sides(ta), sides(tb)
        if not s1 and not s2:
            k = ("shared", ta, tb)
            return self.value(k, 2) - 1
        if len(s1) == 1 and len(s2) == 1:
            if s1 == s2:
                k = ("selfrel", key_of(ta), key_of(tb))
                return self.value(k, s1.pop()) - 1
            if key_of(ta) == key_of(tb) and sa == sb and oa == ob:
                k = key_of(ta)
                d = self.value(k, 0) - self.value(k, 1)
                sg = (d > 0) - (d < 0)
                return sa * (sg if s1 == {0} else -sg)
            raise Mixed(f, nid, "compares different quantities of the two elements")
        if not s2 and len(s1) == 1:
            return self.value(("selfrel", key_of(ta), tb), s1.pop()) - 1
        if not s1 and len(s2) == 1:
            return 1 - self.value(("selfrel", key_of(tb), ta), s2.pop())
        raise Unknown("comparison of mixed quantities")

    def vs_const(self, f, nid, a, c):
        t, sg, off = self.norm(a)
        s = sides(t)
        if len(s) > 1:
            raise Unknown("mixed quantity against a constant")
        k = key_of(t)
        lim = sg * (c - off)
        if k not in self.boolkeys:
            self.const(k, lim)
        v = self.value(k, s.pop() if s else 2)
        return sg * ((v > lim) - (v < lim))

    def truth(self, f, nid, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        if v is None:
            raise Unknown("no value")
        if v[0] == "un" and v[1] == "!":
            return not self.truth(f, nid, v[2])
        s = sides(v)
        if len(s) > 1:
            raise Unknown("opaque condition on both elements")
        k = key_of(v)
        if k not in self.boolkeys:
            self.boolkeys.add(k)
            self.dom.setdefault(k, set())
            raise Grow()
        return self.value(k, s.pop() if s else 2) != 0

    # ------------------------------------------------------------------ expressions
    def ev(self, f, i, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Unknown("too long")
        if i is None or i < 0:
            return None
        n = f.N[i]
        k = n["k"]
        c = n.get("c", [])
        if k == "Int":
            return int(n["val"])
        if k == "Bool":
            return bool(n["val"])
        if k == "Flt":
            x = float(n["val"])
            if x != int(x):
                raise Unknown("fraction")
            return int(x)
        if k == "Chr":
            return int(n["val"])
        if k in ("Nullptr", "Null"):
            return 0
        if k == "This":
            return env.get("this", ("this",))
        if k == "Ref":
            v = n.get("v")
            if v in env:
                return env[v]
            if n.get("dk") in ("enum", "enumerator") or n.get("val") is not None:
                try:
                    return int(n["val"])
                except Exception:
                    return ("const", n.get("n") or n.get("fn"))
            return ("var", v or n.get("fn") or n.get("n"))
        if k == "Mem":
            b = self.ev(f, c[0], env) if c else env.get("this", ("this",))
            if isinstance(b, tuple) and b and b[0] == "pair" and n["n"] in ("first", "second"):
                return b[1 if n["n"] == "first" else 2]
            if isinstance(b, tuple) and b[0] == "closure":
                b = ("this",)
            return (".", b, n["n"])
        if k in ("Cast", "Paren", "Temp", "Implicit", "Cleanups"):
            v = self.ev(f, c[0], env) if c else None
            ty = core.strip_cv(f.ty(i))
            if ty == "bool" and isinstance(v, tuple):
                return self.truth(f, i, v)
            return v
        if k == "DefArg":
            return self.ev(f, c[0], env) if c else ("defarg",)
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                t = f.N[c[0]]
                if t["k"] != "Ref" or t.get("v") not in env:
                    raise Unknown("step of something else")
                old = env[t["v"]]
                new = self.bin(f, i, "+" if op == "++" else "-", old, 1)
                env[t["v"]] = new
                return old if n.get("post") else new
            if op in ("*", "&"):
                return self.ev(f, c[0], env)
            v = self.ev(f, c[0], env)
            if op == "!":
                return not self.truth(f, i, v)
            if isinstance(v, (int, bool)):
                return -int(v) if op == "-" else (~int(v) if op == "~" else int(v))
            return ("un", op, v)
        if k == "Cond":
            v = self.ev(f, c[0], env)
            a1, a2 = None, None
            if isinstance(v, tuple) and len(sides(v)) == 1 and not env.get("force"):
                e1 = dict(env)
                a1 = self.ev(f, c[1], e1)
                a2 = self.ev(f, c[2], dict(env))
                if isinstance(a1, int) and isinstance(a2, int):
                    return ("?:", v, int(a1), int(a2))
            return self.ev(f, c[1] if self.truth(f, i, v) else c[2], env)
        if k == "Bin":
            op = n["op"]
            if op == "&&":
                return self.truth(f, i, self.ev(f, c[0], env)) and self.truth(f, i, self.ev(f, c[1], env))
            if op == "||":
                return self.truth(f, i, self.ev(f, c[0], env)) or self.truth(f, i, self.ev(f, c[1], env))
            if op == ",":
                self.ev(f, c[0], env)
                return self.ev(f, c[1], env)
            return self.bin(f, i, op, self.ev(f, c[0], env), self.ev(f, c[1], env))
        if k == "Assign":
            t = f.N[c[0]]
            if t["k"] != "Ref" or t.get("v") not in env:
                raise Unknown("assignment to something else")
            v = self.ev(f, c[1], env)
            if n["op"] != "=":
                v = self.bin(f, i, n["op"][:-1], env[t["v"]], v)
            env[t["v"]] = v
            return v
        if k in ("Ctor", "InitList"):
            a = [self.ev(f, x, env) for x in n.get("a", c)]
            cls = n.get("cls", "") or core.strip_cv(f.ty(i))
            if len(a) == 1 and (n.get("sp") in ("copy", "move") or "__unspec" in cls or cls.endswith("_ordering")):
                return a[0]
            if cls.startswith(("std::pair", "std::tuple")) and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "pair":
                return a[0]
            if cls.startswith(("std::pair", "std::tuple")):
                return ("pair",) + tuple(a)
            return ("new", cls) + tuple(a)
        if k == "Call":
            return self.call(f, i, n, env)
        if k == "Lambda":
            return ("closure", n.get("f"))
        if k == "Sub":
            return ("call", "[]", self.ev(f, c[0], env), self.ev(f, c[1], env))
        if len(c) == 1:
            return self.ev(f, c[0], env)
        raise Unknown("expression " + k)

    def bin(self, f, i, op, a, b):
        if op in ("<", ">", "<=", ">=", "==", "!=", "<=>"):
            r = self.relation(f, i, a, b)
            return {"<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0, "==": r == 0, "!=": r != 0, "<=>": r}[op]
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            try:
                return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
            except KeyError:
                if op == "/" and b:
                    return a // b
                if op == "%" and b:
                    return a % b
                raise Unknown("operator " + op)
        return ("bin", op, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)

    def call(self, f, i, n, env):
        fn = n.get("fn", "") or ""
        last = fn.rsplit("::", 1)[-1]
        o = n.get("o", -1)
        ob = self.ev(f, o, env) if o is not None and o >= 0 else None
        args = [self.ev(f, x, env) for x in n.get("a", [])]
        if ob is None and o is not None and o < 0 and n.get("f") in self.prog.F and self.prog.F[n["f"]].get("cls") and not n.get("static"):
            ob = env.get("this", ("this",))
        if last in PASS and fn.startswith("std::") and args:
            return args[0]
        if fn in ("std::make_pair", "std::tie", "std::make_tuple", "std::forward_as_tuple"):
            return ("pair",) + tuple(args)
        if fn == "std::get" and args and isinstance(args[0], tuple) and args[0][0] == "pair" and len(args[0]) == 3:
            return ("get", fn) + tuple(args)
        if fn in ("std::is_lt", "std::is_gt", "std::is_lteq", "std::is_gteq", "std::is_eq", "std::is_neq") and isinstance(args[0], int):
            r = args[0]
            return {"std::is_lt": r < 0, "std::is_gt": r > 0, "std::is_lteq": r <= 0, "std::is_gteq": r >= 0, "std::is_eq": r == 0, "std::is_neq": r != 0}[fn]
        op = n.get("op")
        tg = self.prog.F.get(n.get("f"))
        both = ([ob] if ob is not None else []) + args
        ss = set()
        for x in both:
            ss |= sides(x)
        operands = both if (op and op != "()") else args
        if op in ("<", ">", "<=", ">=", "==", "!=", "<=>") and len(operands) == 2:
            if tg is None or tg.key in self.cmp or tg.get("defaulted") or op in ("==", "!="):
                return self.bin(f, i, op, operands[0], operands[1])
        if len(ss) == 2:
            if tg is not None and tg.body is not None and tg.key not in self.cmp and not tg.get("dep") and last not in CMP3 and last not in LESS and not (tg.get("virt") or tg.get("pure")):
                return self.inline(tg, ob, args, env)
            three = last in CMP3
            if three or last in LESS or last in MORE or (tg is not None and tg.key in self.cmp):
                rest = args if len([x for x in args if sides(x)]) >= 2 else both
                sided = [x for x in rest if sides(x)]
                if any(len(sides(x)) != 1 for x in sided):
                    raise Unknown("call mixes the elements")
                first = sides(sided[0]).copy().pop()
                lead = [x for x in sided if sides(x) == {first}]
                other = [x for x in sided if sides(x) != {first}]
                if sorted(map(repr, map(key_of, lead))) != sorted(map(repr, map(key_of, other))):
                    raise Mixed(f, i, "compares different quantities of the two elements")
                if sided[:len(lead)] != lead:
                    raise Unknown("argument order")
                k = ("by", "" if tg is None else tg.name if last not in ("operator()",) else tg.name) + tuple(key_of(x) for x in lead)
                if last in LESS or last in MORE or three:
                    k = ("by", last if last not in MORE else "less") + tuple(key_of(x) for x in lead)
                va, vb = self.value(k, 0), self.value(k, 1)
                d = (va > vb) - (va < vb)
                r = d if first == 0 else -d
                if three:
                    return r
                return r > 0 if last in MORE else r < 0
            raise Unknown("call of %s on both elements" % (fn or "?"))
        if tg is not None and tg.body is not None and not (tg.get("virt") or tg.get("pure")) and not tg.get("dep"):
            st = [x for x in tg.kids(tg.body)] if tg.N[tg.body]["k"] == "Block" else [tg.body]
            st = [x for x in st if tg.N[x]["k"] != "Nop"]
            if len(st) == 1 and tg.N[st[0]]["k"] == "Return" and tg.kids(st[0]):
                r = tg.kids(st[0])[0]
                if self.simple(tg, r):
                    try:
                        return self.inline(tg, ob, args, env)
                    except (Unknown, Mixed):
                        pass
        return ("call", fn, ob) + tuple(args) if ob is not None else ("call", fn) + tuple(args)

    def simple(self, f, i):
        n = f.N[i]
        while n["k"] in ("Cast", "Paren", "Temp", "Implicit", "Un") and f.kids(i):
            if n["k"] == "Un" and n["op"] not in ("*", "&"):
                return False
            i = f.kids(i)[0]
            n = f.N[i]
        if n["k"] == "Mem":
            return not f.kids(i) or self.simple(f, f.kids(i)[0])
        if n["k"] in ("Ctor", "InitList"):
            return n.get("sp") in ("copy", "move") and n.get("a") and self.simple(f, n["a"][0])
        return n["k"] in ("This", "Ref", "Int", "Bool")

    def inline(self, tg, ob, args, env):
        depth = env.get("depth", 0)
        if depth > 6:
            raise Unknown("too deep")
        e = {"depth": depth + 1}
        if ob is not None:
            e["this"] = ob if not (isinstance(ob, tuple) and ob and ob[0] == "closure") else env.get("this", ("this",))
        for p, a in zip(tg.params, args):
            e[p["v"]] = a
        if tg.get("lambda"):
            for k, v in env.items():
                e.setdefault(k, v)
        r = self.run(tg, tg.body, e)
        if r is None or r[0] != "ret":
            raise Unknown("no result")
        return r[1]

    # ------------------------------------------------------------------ statements
    def run(self, f, i, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Unknown("too long")
        if i is None or i < 0:
            return None
        n = f.N[i]
        k = n["k"]
        c = n.get("c", [])
        if k == "Block":
            for x in c:
                r = self.run(f, x, env)
                if r is not None:
                    return r
            return None
        if k == "Return":
            return ("ret", self.ev(f, c[0], env) if c else None)
        if k == "If":
            if n.get("init") is not None and n.get("init", -1) >= 0:
                self.run(f, n["init"], env)
            if n.get("constexpr") is not None and f.N[n["cond"]]["k"] == "Bool":
                pass
            if self.truth(f, n["cond"], self.ev(f, n["cond"], env)):
                return self.run(f, n["then"], env)
            return self.run(f, n.get("else", -1), env)
        if k in ("While", "For", "Do"):
            if k == "For":
                self.run(f, n.get("init", -1), env)
            rounds = 0
            while True:
                if not (k == "Do" and rounds == 0):
                    if rounds >= 2:
                        break
                    if n.get("cond", -1) >= 0 and not self.truth(f, n["cond"], self.ev(f, n["cond"], env)):
                        break
                r = self.run(f, n["body"], env)
                if r is not None:
                    if r[0] == "ret":
                        return r
                    if r[0] == "brk":
                        break
                if k == "For":
                    self.run(f, n.get("inc", -1), env)
                rounds += 1
            return None
        if k == "Switch":
            v = self.ev(f, n["cond"], env)
            if not isinstance(v, int):
                raise Unknown("switch on an element")
            body = f.kids(n["body"]) if f.N[n["body"]]["k"] == "Block" else [n["body"]]
            flat = []
            for x in body:
                labs = []
                while f.N[x]["k"] in ("Case", "Default"):
                    labs.append(f.N[x].get("val") if f.N[x]["k"] == "Case" else "default")
                    x = f.N[x].get("sub", f.kids(x)[-1]) if f.N[x]["k"] == "Case" else f.kids(x)[0]
                flat.append((labs, x))
            start = None
            for j, (labs, x) in enumerate(flat):
                if str(v) in labs:
                    start = j
            if start is None:
                for j, (labs, x) in enumerate(flat):
                    if "default" in labs:
                        start = j
            if start is None:
                return None
            for labs, x in flat[start:]:
                r = self.run(f, x, env)
                if r is not None:
                    if r[0] == "brk":
                        return None
                    return r
            return None
        if k == "Break":
            return ("brk",)
        if k == "Continue":
            return ("cont",)
        if k == "Decl":
            for v in n["vars"]:
                if v.get("binds"):
                    raise Unknown("structured binding")
                if v.get("i", -1) is not None and v.get("i", -1) >= 0:
                    env[v["v"]] = self.ev(f, v["i"], env)
                else:
                    env[v["v"]] = ("undef",)
            return None
        if k in ("Nop", "StaticAssert"):
            return None
        if k == "Attributed":
            return self.run(f, c[-1], env)
        self.ev(f, i, env)
        return None


def table(prog, f, start, comparators, wrap=None):
    """decision tree of f: list of (assignment {(key, side): value}, result); also the interpreter (domains)"""
    it = Interp(prog, comparators)
    for attempt in range(60):
        try:
            out = []
            stack = [{}]
            while stack:
                a = stack.pop()
                it.assign = a
                it.steps = 0
                try:
                    env = {"depth": 0}
                    start(f, env)
                    r = it.run(f, f.body, env)
                    if r is None or r[0] != "ret":
                        raise Unknown("no result")
                    v = r[1]
                    if isinstance(v, tuple):
                        v = it.truth(f, f.body, v)
                    out.append((a, v))
                    if len(out) > 60000:
                        if not it.small:
                            it.small = True
                            raise Grow()
                        raise Unknown("too many cases")
                except Need as e:
                    for x in it.domain(e.key) if not (isinstance(e.key, tuple) and e.key[0] in ("selfrel", "shared")) else (0, 1, 2):
                        b = dict(a)
                        b[(e.key, e.side)] = x
                        stack.append(b)
            return it, out
        except Grow:
            continue
    raise Unknown("no fixed point")
