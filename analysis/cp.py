"""Interprocedural constant propagation over finite argument domains (enumerations, small integers).

eval_call(prog, fn, args) propagates constant arguments through a function's statements and returns the constant result,
or raises Unknown when something in the way is not a constant.  Used exhaustively: every member of every finite argument type."""
import ir, core


class Unknown(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Thrown(Exception):
    pass


W = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
     "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}


def wrap(v, t):
    t = core.strip_cv(t)
    if t == "bool":
        return int(bool(v))
    if t in W and isinstance(v, int):
        b, s = W[t]
        v &= (1 << b) - 1
        if s and v >> (b - 1):
            v -= 1 << b
    elif t in W and isinstance(v, float):
        return wrap(int(v), t)
    elif t in ("double", "float") and isinstance(v, int):
        return float(v)
    return v


def sub(f, i):
    n = f.N[i]
    return n["sub"] if "sub" in n else f.kids(i)[-1]


class Ev:
    def __init__(self, prog, f, env, this=None, depth=0, fuel=None, stub=None):
        self.p, self.f, self.env, self.this, self.depth = prog, f, env, this, depth
        self.fuel = fuel or [20000]
        self.stub = stub or {}

    def tick(self):
        self.fuel[0] -= 1
        if self.fuel[0] < 0:
            raise Unknown("too long")

    # -- statements
    def st(self, i):
        if i is None or i < 0:
            return
        self.tick()
        f, n = self.f, self.f.N[i]
        k = n["k"]
        if k == "Block":
            for c in f.kids(i):
                self.st(c)
        elif k == "Return":
            c = f.kids(i)
            raise _Ret(self.ex(c[0]) if c else None)
        elif k == "If":
            if n.get("init", -1) is not None and n.get("init", -1) >= 0:
                self.st(n["init"])
            if n.get("cvar", -1) is not None and n.get("cvar", -1) >= 0:
                self.st(n["cvar"])
            if self.ex(n["cond"]):
                self.st(n["then"])
            else:
                self.st(n["else"])
        elif k == "Switch":
            v = self.ex(n["cond"])
            try:
                self.switch(n["body"], v)
            except _Brk:
                pass
        elif k in ("Case", "Default"):
            self.st(sub(f, i))
        elif k == "Break":
            raise _Brk()
        elif k == "Continue":
            raise _Cont()
        elif k == "Decl":
            for v in n["vars"]:
                if "i" in v and v["i"] >= 0:
                    try:
                        self.env[v["v"]] = self.conv(self.ex(v["i"]), f.T[v["t"]])
                    except Unknown:
                        self.env[v["v"]] = Unknown
        elif k in ("While", "For", "Do"):
            if k == "For" and n.get("init", -1) >= 0:
                self.st(n["init"])
            first = k == "Do"
            while first or (n.get("cond", -1) < 0) or self.ex(n["cond"]):
                first = False
                self.tick()
                try:
                    self.st(n["body"])
                except _Brk:
                    break
                except _Cont:
                    pass
                if k == "For" and n.get("inc", -1) >= 0:
                    self.ex(n["inc"])
        elif k == "Throw":
            raise Thrown()
        elif k in ("Nop", "Null", "Attr", "Label"):
            for c in f.kids(i):
                self.st(c)
        else:
            self.ex(i)

    def switch(self, body, v):
        f = self.f
        flat = []

        def add(s):
            n = f.N[s]
            if n["k"] == "Case":
                flat.append(("case", self.ex(n["c"][0])))
                add(sub(f, s))
            elif n["k"] == "Default":
                flat.append(("default", None))
                add(sub(f, s))
            else:
                flat.append(("st", s))
        for c in (f.kids(body) if f.N[body]["k"] == "Block" else [body]):
            add(c)
        at = None
        for i, (k, x) in enumerate(flat):
            if k == "case" and x == v:
                at = i
        if at is None:
            for i, (k, x) in enumerate(flat):
                if k == "default":
                    at = i
        if at is None:
            return
        for k, x in flat[at:]:
            if k == "st":
                self.st(x)

    def conv(self, v, t):
        return wrap(v, t)

    # -- lvalues
    def assign(self, i, v):
        f, n = self.f, self.f.N[i]
        if n["k"] in ("Cast", "Paren"):
            return self.assign(n["c"][0], v)
        if n["k"] == "Ref" and n.get("v"):
            self.env[n["v"]] = self.conv(v, f.ty(i))
            return
        if n["k"] == "Mem" and f.N[n["c"][0]]["k"] == "This":
            if not isinstance(self.this, dict):
                raise Unknown("this")
            self.this[n["n"]] = self.conv(v, f.ty(i))
            return
        raise Unknown("assign " + n["k"])

    # -- expressions
    def ex(self, i):
        self.tick()
        f, n = self.f, self.f.N[i]
        k = n["k"]
        c = n.get("c", [])
        if k in ("Int", "Bool"):
            return int(n["val"])
        if k == "Flt":
            return float(n["val"])
        if k == "Str":
            return n.get("val")
        if k == "Ref":
            dk = n.get("dk")
            if dk == "enum":
                e = n["n"]
                q = e.rsplit("::", 1)
                for name, en in self.p.E.items():
                    if name == q[0]:
                        for nm, val in en["e"]:
                            if nm == q[1]:
                                return int(val)
                raise Unknown("enum " + e)
            if n.get("v") in self.env:
                v = self.env[n["v"]]
                if v is Unknown:
                    raise Unknown(n["v"])
                return v
            if dk == "glob":
                g = self.p.G.get(n.get("v")) or self.p.G.get(n.get("qn"))
                if g and "val" in g:
                    return g["val"]
            raise Unknown("var " + str(n.get("n")))
        if k in ("Cast",):
            if not c:
                raise Unknown("cast")
            if f.ty(i) == "void":
                return None
            return self.conv(self.ex(c[0]), f.ty(i))
        if k in ("DefArg", "DefInit", "Paren"):
            return self.ex(c[0])
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                v = self.ex(c[0])
                nv = v + (1 if op == "++" else -1)
                self.assign(c[0], nv)
                return v if n.get("post") else nv
            v = self.ex(c[0])
            if op == "-":
                return self.conv(-v, f.ty(i))
            if op == "!":
                return int(not v)
            if op == "~":
                return self.conv(~v, f.ty(i))
            if op == "+":
                return v
            if op in ("*", "&") and isinstance(v, dict):
                return v
            raise Unknown("un" + op)
        if k == "Bin":
            op = n["op"]
            if op == "&&":
                return int(bool(self.ex(c[0])) and bool(self.ex(c[1])))
            if op == "||":
                return int(bool(self.ex(c[0])) or bool(self.ex(c[1])))
            if op == ",":
                self.ex(c[0])
                return self.ex(c[1])
            return self.conv(self.arith(op, self.ex(c[0]), self.ex(c[1])), f.ty(i))
        if k == "Assign":
            op = n["op"]
            v = self.ex(c[1])
            if op != "=":
                v = self.arith(op[:-1], self.ex(c[0]), v)
            self.assign(c[0], v)
            return v
        if k == "Cond":
            return self.ex(c[1]) if self.ex(c[0]) else self.ex(c[2])
        if k == "Sub":
            a = self.ex(c[0])
            j = self.ex(c[1])
            if isinstance(a, (list, tuple)) and isinstance(j, int) and 0 <= j < len(a):
                return a[j]
            raise Unknown("subscript")
        if k == "InitList":
            t = core.strip_cv(f.ty(i))
            if t.startswith("std::complex"):
                v = [float(self.ex(x)) for x in c] + [0.0, 0.0]
                return complex(v[0], v[1])
            return [self.ex(x) for x in c]
        if k == "Ctor":
            a = n.get("a", [])
            cls = n.get("cls", "")
            if cls.startswith("std::complex"):
                v = [self.ex(x) for x in a]
                if len(v) == 1 and isinstance(v[0], complex):
                    return v[0]
                v = [float(x) for x in v] + [0.0, 0.0]
                return complex(v[0], v[1])
            if n.get("sp") in ("copy", "move") or cls.startswith(("std::basic_string", "std::array")):
                if a:
                    return self.ex(a[0])
            raise Unknown("ctor " + cls)
        if k == "Mem":
            b = c[0] if c else -1
            if b >= 0 and f.N[b]["k"] == "This":
                if isinstance(self.this, dict) and n["n"] in self.this:
                    return self.this[n["n"]]
                raise Unknown("member " + n["n"])
            v = self.ex(b)
            if isinstance(v, dict) and n["n"] in v:
                return v[n["n"]]
            raise Unknown("member " + n["n"])
        if k == "This":
            return self.this
        if k == "Call":
            return self.call(n, i)
        if k == "Throw":
            raise Thrown()
        raise Unknown(k)

    def arith(self, op, a, b):
        try:
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/":
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return a / b
            if op == "%":
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if op == "<<": return a << b
            if op == ">>": return a >> b
            if op == "&": return a & b
            if op == "|": return a | b
            if op == "^": return a ^ b
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
            if op == "<": return int(a < b)
            if op == ">": return int(a > b)
            if op == "<=": return int(a <= b)
            if op == ">=": return int(a >= b)
        except Exception as e:
            raise Unknown(str(e))
        raise Unknown("op " + op)

    def call(self, n, i):
        fn = n.get("fn", "")
        a = n.get("a", [])
        o = n.get("o", -1)
        if fn in self.stub:
            return self.stub[fn](*[self.ex(x) for x in a])
        if fn in ("std::move", "std::forward", "std::as_const", "std::to_underlying"):
            return self.ex(a[0])
        if fn in ("std::abs", "abs", "std::fabs"):
            return abs(self.ex(a[0]))
        if fn in ("std::bit_floor", "std::bit_width", "std::bit_ceil", "std::popcount") and len(a) == 1:
            v = self.ex(a[0])
            if not isinstance(v, int) or v < 0:
                raise Unknown(fn)
            if fn == "std::bit_floor":
                return 1 << (v.bit_length() - 1) if v else 0
            if fn == "std::bit_ceil":
                return 1 << (v - 1).bit_length() if v > 1 else 1
            return v.bit_length() if fn == "std::bit_width" else bin(v).count("1")
        if fn in ("std::min", "std::max") and len(a) == 2:
            v = [self.ex(x) for x in a]
            return min(v) if fn == "std::min" else max(v)
        if fn.startswith("std::") and n.get("op") and fn not in self.p.F:
            args = ([o] if o >= 0 else []) + list(a)
            if len(args) == 2 and n["op"] == "[]":
                v, j = self.ex(args[0]), self.ex(args[1])
                if isinstance(v, list) and 0 <= j < len(v):
                    return v[j]
                raise Unknown("[]")
            if len(args) == 2:
                return self.arith(n["op"], self.ex(args[0]), self.ex(args[1]))
        ts = self.p.targets(n)
        if len(ts) != 1 or self.depth > 12:
            raise Unknown("call " + fn)
        g = self.p.F[ts[0]]
        env = {}
        for q, x in zip(g.params, a):
            try:
                env[q["v"]] = self.conv(self.ex(x), g.T[q["t"]])
            except Unknown:
                env[q["v"]] = Unknown
        th = None
        if o >= 0:
            try:
                th = self.ex(o)
            except Unknown:
                th = None
        if g.get("lambda"):
            env = dict(self.env, **env)
            th = self.this
        return run(self.p, g, env, th, self.depth + 1, self.fuel, self.stub)


def run(prog, g, env, this=None, depth=0, fuel=None, stub=None):
    e = Ev(prog, g, env, this, depth, fuel, stub)
    try:
        e.st(g.body)
    except _Ret as r:
        return wrap(r.v, g.T[g.d["rt"]]) if "rt" in g.d else r.v
    return None


def call(prog, f, args, this=None, stub=None):
    env = {p["v"]: wrap(a, f.T[p["t"]]) for p, a in zip(f.params, args)}
    return run(prog, f, env, this, stub=stub)
