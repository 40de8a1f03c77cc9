"""Shared analyses on top of the program database: canonical expressions, branch facts, variable mutation, effects."""
import re
import ir

GROW = {"push_back", "emplace_back", "reserve", "shrink_to_fit"}
SIZE_FN = {"std::size", "std::ssize", "size", "ssize"}
TRANSPARENT = {"std::move", "std::forward", "std::as_const", "std::addressof", "std::to_address", "std::ref", "std::cref"}
TRANSPARENT_METH = {"get", "operator->", "operator*", "value", "lock"}
CMP = {"<", ">", "<=", ">=", "==", "!="}
INT_TYPES = {"int", "long", "unsigned long", "unsigned int", "short", "unsigned short", "unsigned char", "signed char", "char",
             "long long", "unsigned long long", "bool", "__int128", "unsigned __int128"}


def is_int_type(t):
    t = strip_cv(t)
    return t in INT_TYPES


def strip_cv(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        else:
            return t


def is_unsigned(t):
    return strip_cv(t).startswith("unsigned") or strip_cv(t) == "bool"


def is_ref(t):
    return t.endswith("&")


def is_ptr(t):
    return strip_cv(t).endswith("*")


class VarInfo:
    __slots__ = ("t", "init", "defs", "muts", "kind", "rangevar", "decl", "refcap")

    def __init__(self):
        self.t = ""
        self.init = None      # node id of initialiser
        self.defs = 0         # number of assignments beyond the initialiser
        self.muts = []        # node ids at which the variable may be changed
        self.kind = "local"
        self.rangevar = None  # RangeFor node
        self.decl = None
        self.refcap = False


def lval_root(f, nid):
    """Root variable key (or 'this') of an lvalue path, following member access, subscripts and derefs of the same object
    Returns (root, fields, through_pointer)"""
    fields = []
    ptr = False
    x = nid
    for _ in range(60):
        n = f.N[x]
        k = n["k"]
        if k == "Ref":
            if n.get("dk") in ("parm", "local", "bind", "slocal"):
                return n["v"], fields[::-1], ptr
            if n.get("dk") == "glob":
                return "G:" + n.get("v", "?"), fields[::-1], ptr
            return None, fields[::-1], ptr
        if k == "This":
            return "this", fields[::-1], ptr
        if k == "Mem":
            if n.get("arrow") and f.N[n["c"][0]]["k"] != "This":
                ptr = True
            elif n.get("n") in ("first", "second") and refmember(f.ty(n["c"][0]), n["n"]):
                ptr = True
            fields.append(n["n"])
            x = n["c"][0]
            continue
        if k == "Sub":
            fields.append("[]")
            x = n["c"][0]
            continue
        if k == "Un" and n["op"] in ("*", "&", "++", "--"):
            if n["op"] == "*" and f.N[n["c"][0]]["k"] != "This":
                ptr = True
            x = n["c"][0]
            continue
        if k in ("Cast", "DefArg", "DefInit"):
            if not n.get("c"):
                return None, fields[::-1], ptr
            x = n["c"][0]
            continue
        if k == "Assign":
            x = n["c"][0]
            continue
        if k == "Call":
            fn = n.get("fn", "")
            last = fn.rsplit("::", 1)[-1]
            if fn in TRANSPARENT and n.get("a"):
                x = n["a"][0]
                continue
            if "o" in n and n["o"] >= 0:
                if last in ("operator->", "operator*", "get", "value"):
                    ptr = True
                    x = n["o"]
                    continue
                if last in ("operator[]", "at", "front", "back", "begin", "end", "data", "rbegin", "rend", "find", "cbegin", "cend"):
                    fields.append("[]")
                    x = n["o"]
                    continue
                if n.get("op") in ("=", "+=", "-=", "++", "--", "<<", "*="):
                    x = n["o"]
                    continue
            return None, fields[::-1], ptr
        if k == "Ctor" and len(n.get("a", [])) == 1 and n.get("sp") in ("copy", "move"):
            x = n["a"][0]
            continue
        return None, fields[::-1], ptr
    return None, fields[::-1], ptr


def direct_var(f, nid):
    """variable key if the expression is (a member path of) a named variable without going through a pointer"""
    r, fields, ptr = lval_root(f, nid)
    return r


def targs(t):
    """the template arguments of a class type"""
    a, b = t.find("<"), t.rfind(">")
    out, d, cur = [], 0, ""
    for c in t[a + 1:b] if 0 <= a < b else "":
        d += c in "<(" or 0
        d -= c in ">)" or 0
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def refmember(t, name):
    """is the member of a pair a reference"""
    t = strip_cv(t or "")
    if not re.match(r"(std::)?pair<", t):
        return False
    ts = targs(t)
    return len(ts) == 2 and ts[name == "second"].endswith("&")


def copies(f, x, i):
    """is argument i of the making of a pair or tuple only copied from (it is taken by a forwarding reference)"""
    n = f.N[x]
    t = strip_cv(f.ty(x))
    if n["k"] == "Ctor" and re.match(r"(std::)?(pair|tuple)<", t):
        ts = targs(t)
        return len(ts) > 1 and len(ts) == len(n.get("a", [])) and "&" not in ts[i] and "*" not in ts[i]
    return False


def varinfo(f):
    vi = f._memo.get("varinfo")
    if vi is not None:
        return vi
    vi = {}

    def get(v):
        if v not in vi:
            vi[v] = VarInfo()
        return vi[v]
    for p in f.params:
        g = get(p["v"])
        g.t = f.T[p["t"]]
        g.kind = "parm"
    nodes = f.all_nodes()
    for x in nodes:
        n = f.N[x]
        k = n["k"]
        if k == "Decl":
            for v in n["vars"]:
                g = get(v["v"])
                g.t = f.T[v["t"]]
                g.decl = x
                if "i" in v:
                    g.init = v["i"]
                if v.get("static"):
                    g.kind = "slocal"
                for b in v.get("binds", []):
                    gb = get(b["v"])
                    gb.t = f.T[b["t"]]
                    gb.kind = "bind"
                    gb.decl = x
        elif k == "RangeFor" and n.get("var"):
            get(n["var"]).rangevar = x
        elif k == "Catch" and n.get("v"):
            g = get(n["v"])
            g.t = f.T[n["ct"]]
            g.kind = "catch"

    def mutate(nid, at):
        r, fields, ptr = lval_root(f, nid)
        if r and r != "this" and not r.startswith("G:"):
            g = get(r)
            if not ptr:
                g.muts.append(at)
                if not fields:
                    g.defs += 1
    for x in nodes:
        n = f.N[x]
        k = n["k"]
        if k == "Assign":
            mutate(n["c"][0], x)
        elif k == "Un" and n["op"] in ("++", "--"):
            mutate(n["c"][0], x)
        elif k == "Un" and n["op"] == "&":
            # address taken of a non-const thing: treat as mutation
            par = f.ty(x)
            if "const " not in par:
                mutate(n["c"][0], x)
        elif k in ("Call", "Ctor"):
            pm = n.get("pm", "")
            args = n.get("a", [])
            for i, a in enumerate(args):
                m = pm[i] if i < len(pm) else "v"
                if m in ("m", "r") or (not n.get("f") and is_class_type(f.ty(a)) and False):
                    if m == "r" and n.get("fn") in TRANSPARENT:
                        continue
                    if copies(f, x, i):
                        continue
                    mutate(a, x)
            if "o" in n and n["o"] >= 0 and not n.get("mconst") and not n.get("static"):
                last = n.get("fn", "").rsplit("::", 1)[-1]
                if last in ("begin", "end", "operator[]", "at", "front", "back", "data", "operator->", "operator*", "get", "find",
                            "cbegin", "cend", "value", "rbegin", "rend", "operator bool", "lower_bound", "upper_bound"):
                    pass
                elif not (f.N[n["o"]]["k"] in ("Ref", "Cast", "Paren") and is_ptr(strip_cv(f.ty(n["o"])))):
                    mutate(n["o"], x)
        elif k == "Lambda":
            for c in n.get("caps", []):
                if c.get("v") and c["m"] == "ref":
                    get(c["v"]).refcap = True
            g = f.prog.F.get(n["f"])
            if g is not None and g is not f:
                li = varinfo(g)
                for v, inf in li.items():
                    if inf.muts and v in vi and v not in [p["v"] for p in g.params] and inf.decl is None:
                        get(v).muts.append(x)
                        get(v).defs += inf.defs
    f._memo["varinfo"] = vi
    return vi


def is_class_type(t):
    t = strip_cv(t)
    return not (t in INT_TYPES or t.endswith("*") or t in ("double", "float", "void", "std::nullptr_t"))


def stable_local(f, v):
    """local variable / parameter whose value is never changed after initialisation"""
    g = varinfo(f).get(v)
    return g is not None and not g.muts


def simple_return(f):
    """node id of the returned expression if the body is just 'return e;' (ignoring no-ops)"""
    r = f._memo.get("simple_return", 0)
    if r != 0:
        return r
    res = None
    if f.body >= 0 and f.N[f.body]["k"] == "Block":
        st = [c for c in f.kids(f.body) if not is_noop(f, c)]
        if len(st) == 1 and f.N[st[0]]["k"] == "Return" and f.kids(st[0]):
            res = f.kids(st[0])[0]
    f._memo["simple_return"] = res
    return res


_known = None


def newly(f):
    """a function that the tree had not when its functions were listed: a helper taken out of others, judged where it is called"""
    global _known
    if _known is None:
        import os
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables", "functions.txt")
        _known = set(open(p).read().split("\n")) if os.path.exists(p) else set()
    return bool(_known) and re.sub(r"<.*>", "", f.short) not in _known


def is_noop(f, c):
    n = f.N[c]
    if n["k"] == "Nop":
        return True
    if n["k"] == "Cast" and f.ty(c) == "void":
        ks = {f.N[x]["k"] for x in f.walk(c)}
        return not (ks & {"Call", "Assign", "Ctor", "Throw", "New"})
    if n["k"] in ("Int", "Ref"):
        return True
    return False


class Canon:
    """Canonical value expressions of nodes of one function, in terms of an environment for its parameters."""

    def __init__(self, f, env=None, depth=0, inline=True, resolve=True):
        self.f = f
        self.prog = f.prog
        self.env = env or {}
        self.depth = depth
        self.inline = inline
        self.resolve = resolve
        self.memo = {}

    def __call__(self, nid):
        if nid is None or nid < 0:
            return ("none",)
        m = self.memo.get(nid)
        if m is None:
            self.memo[nid] = ("rec", nid)
            m = self._c(nid)
            self.memo[nid] = m
        return m

    def var(self, v):
        if v in self.env:
            return self.env[v]
        f = self.f
        g = varinfo(f).get(v)
        if g is None or not self.resolve:
            return ("v", v)
        if g.rangevar is not None:
            rn = f.N[g.rangevar]
            if is_ref(g.t) or not g.muts:
                return ("elem", self(rn["range"]), v)
            return ("v", v)
        if g.kind == "bind" and g.decl is not None:
            d = f.N[g.decl]
            for vv in d["vars"]:
                for i, b in enumerate(vv.get("binds", [])):
                    if b["v"] == v:
                        base = self.var(vv["v"]) if ("i" not in vv) else self(vv["i"])
                        rv = self._range_of(vv["v"])
                        if rv is not None:
                            base = ("elem", self(rv), vv["v"])
                        fd = b.get("fd")
                        return (".", base, fd.rsplit("::", 1)[-1] if fd else "<%d>" % i)
            return ("v", v)
        if g.init is not None and g.kind == "local":
            if is_ref(g.t) or not g.muts:
                r = self(g.init)
                if r[0] == "rec":
                    return ("v", v)
                if size_of(r) > 60:
                    return ("v", v)
                return r
        return ("v", v)

    def _range_of(self, v):
        g = varinfo(self.f).get(v)
        if g is not None and g.rangevar is not None:
            return self.f.N[g.rangevar]["range"]
        return None

    def _c(self, nid):
        f = self.f
        n = f.N[nid]
        k = n["k"]
        if k == "Ref":
            dk = n.get("dk")
            if dk in ("parm", "local", "bind", "slocal"):
                if n["v"] not in varinfo(f) and f.get("lambda"):
                    # captured: look into the lexically enclosing function
                    p = self.prog.F.get(f.get("parent", ""))
                    if p is not None and self.resolve:
                        pe = self.env.get("$parent")
                        cc = pe or Canon(p, None, self.depth + 1, self.inline)
                        return cc.var(n["v"])
                return self.var(n["v"])
            if dk == "enum":
                return ("enum", n["n"])
            if dk == "glob":
                return ("g", n.get("v"))
            if dk == "fn":
                return ("fn", n.get("fn"))
            return ("v", n.get("n"))
        if k == "This":
            return self.env.get("this", ("this",))
        if k == "Int":
            return ("int", int(n["val"]))
        if k == "Bool":
            return ("int", int(n["val"]))
        if k == "Flt":
            return ("flt", n["val"])
        if k == "Null":
            return ("null",)
        if k == "Str":
            return ("str", n.get("val"))
        c = [x for x in n.get("c", [])]
        if k == "Mem":
            b = self(c[0]) if c else ("none",)
            return (".", b, n["n"])
        if k == "Cast":
            return self(c[0]) if c else ("none",)
        if k in ("DefArg", "DefInit"):
            return self(c[0]) if c else ("none",)
        if k == "Un":
            op = n["op"]
            if op in ("*", "&", "+"):
                return self(c[0])
            if op == "!":
                return ("!", self(c[0]))
            if op == "-":
                s = self(c[0])
                return ("int", -s[1]) if s[0] == "int" else ("neg", s)
            if op in ("++", "--") and not n.get("post"):
                return ("inc" + op, self(c[0]), nid)
            return ("un" + op, self(c[0]), nid)
        if k == "Bin":
            op = n["op"]
            a, b = self(c[0]), self(c[1])
            return self.bin(op, a, b, c, nid)
        if k == "Assign":
            if n["op"] == "=":
                return self(c[0])
            return ("asg", n["op"], self(c[0]), self(c[1]), nid)
        if k == "Sub":
            return ("idx", self(c[0]), self(c[1]))
        if k == "Cond":
            return ("?:", self(c[0]), self(c[1]), self(c[2]))
        if k == "Ctor":
            a = n.get("a", [])
            if n.get("sp") in ("copy", "move") and len(a) >= 1:
                return self(a[0])
            real = [x for x in a if f.N[x]["k"] != "DefArg"]
            if len(real) == 1 and n["cls"].split("::")[0] in ("std", "__gnu_cxx") and ("terator" in n["cls"] or n["cls"] in ("std::basic_string_view", "std::optional", "std::function", "std::unique_ptr", "std::shared_ptr", "std::complex")):
                return self(real[0])
            return ("new", n["cls"]) + tuple(self(x) for x in a)
        if k == "InitList":
            if len(c) == 1 and not n.get("cls"):
                return self(c[0])
            return ("list", n.get("cls")) + tuple(self(x) for x in c)
        if k == "Call":
            return self.call(n, nid)
        if k == "Lambda":
            return ("lambda", n["f"])
        if k == "Trait":
            return ("sizeof", f.T[n["at"]] if "at" in n else nid)
        return ("?", f.key, nid)

    def bin(self, op, a, b, c, nid):
        f = self.f
        if op in ("<", ">", "<=", ">="):
            uns = (is_unsigned(f.ty(c[0])) or is_unsigned(f.ty(c[1]))) if c else False
            return cmp_atom(op, a, b, uns)
        if op == "==":
            return ("eq",) + tuple(sorted((a, b), key=repr))
        if op == "!=":
            return ("!", ("eq",) + tuple(sorted((a, b), key=repr)))
        if op == "&&":
            return ("&&", a, b)
        if op == "||":
            return ("||", a, b)
        if op == ",":
            return b
        if a[0] == "int" and b[0] == "int":
            try:
                if op == "+":
                    return ("int", a[1] + b[1])
                if op == "-":
                    return ("int", a[1] - b[1])
                if op == "*":
                    return ("int", a[1] * b[1])
            except Exception:
                pass
        if op in ("+", "*"):
            a, b = sorted((a, b), key=repr)
        return ("op", op, a, b)

    def call(self, n, nid):
        f = self.f
        fn = n.get("fn", "")
        last = fn.rsplit("::", 1)[-1]
        a = n.get("a", [])
        o = n.get("o", -1)
        std = fn.startswith("std::") or fn.startswith("__gnu") or fn.startswith("Eigen")
        if fn in TRANSPARENT and len(a) == 1:
            return self(a[0])
        if std and o >= 0 and last in ("operator->", "operator*", "get", "value") and not a:
            return self(o)
        if o >= 0 and std:
            if last in ("size", "length") and not a:
                return ("size", self(o))
            if last in ("operator[]", "at") and len(a) == 1:
                return ("idx", self(o), self(a[0]))
            if last in ("operator bool", "has_value"):
                return ("ok", self(o))
            if last == "empty" and not a:
                return ("eq", ("int", 0), ("size", self(o)))
        if std and not n.get("op") and last in ("size", "ssize") and len(a) == 1:
            return ("size", self(a[0]))
        op = n.get("op")
        if op in CMP:
            args = ([o] if o >= 0 else []) + list(a)
            if len(args) == 2 and (std or not n.get("f") in self.prog.F):
                x, y = self(args[0]), self(args[1])
                if op == "==":
                    return ("eq",) + tuple(sorted((x, y), key=repr))
                if op == "!=":
                    return ("!", ("eq",) + tuple(sorted((x, y), key=repr)))
                return cmp_atom(op, x, y, False)
        if op in ("+", "-", "*", "/") and std:
            args = ([o] if o >= 0 else []) + list(a)
            if len(args) == 2:
                return ("op", op, self(args[0]), self(args[1]))
            if len(args) == 1 and op == "-":
                return ("neg", self(args[0]))
        if std and last in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"):
            x = self(o) if o >= 0 else self(a[0]) if a else ("none",)
            return (last[1:] if last[0] == "c" else last, x)
        args = tuple(self(x) for x in a)
        obj = self(o) if o >= 0 else None
        # inline trivial accessors
        if self.inline and self.depth < 5:
            ts = self.prog.targets(n)
            if len(ts) == 1:
                g = self.prog.F[ts[0]]
                r = simple_return(g)
                if r is not None and len(g.params) == len(args):
                    env = {p["v"]: x for p, x in zip(g.params, args)}
                    if obj is not None:
                        env["this"] = obj
                    res = Canon(g, env, self.depth + 1)(r)
                    if size_of(res) <= 60:
                        return res
        pure = n.get("mconst") or std or n.get("static")
        ret = ("call", fn, obj) + args
        if not pure and o >= 0:
            ret = ret + (("@", f.key, nid),)
        return ret


def cmp_atom(op, a, b, uns):
    """a<b is ('lt',a,b); others are expressed by it."""
    if op == "<":
        return ("lt", a, b, uns)
    if op == ">":
        return ("lt", b, a, uns)
    if op == "<=":
        return ("!", ("lt", b, a, uns))
    return ("!", ("lt", a, b, uns))


def size_of(t):
    s = 0
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            s += 1
            st.extend(x)
            if s > 500:
                return s
    return s


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def mentions(t, sub):
    for x in subterms(t):
        if x == sub:
            return True
    return False


def literals(c, truth, out):
    """decompose a canonical condition known to be truth into literals (atom, bool)"""
    if c[0] == "!":
        literals(c[1], not truth, out)
    elif c[0] == "&&":
        if truth:
            literals(c[1], True, out)
            literals(c[2], True, out)
        else:
            out.add((c, False))
    elif c[0] == "||":
        if not truth:
            literals(c[1], False, out)
            literals(c[2], False, out)
        else:
            out.add((c, True))
    elif c[0] == "ok":
        out.add((("ok", c[1]), truth))
    elif c[0] == "eq" and c[1] == ("null",):
        out.add((("ok", c[2]), not truth))
    elif c[0] == "eq" and c[2] == ("null",):
        out.add((("ok", c[1]), not truth))
    else:
        out.add((c, truth))
        if c[0] in ("v", ".", "call", "idx", "elem"):
            out.add((("ok", c), truth))
    return out


def rightmost(f, nid):
    """the operand whose value decides the edge when the terminator's condition is a short-circuit chain"""
    while nid >= 0:
        n = f.N[nid]
        if n["k"] == "Bin" and n["op"] in ("&&", "||"):
            nid = n["c"][1]
        else:
            return nid
    return nid


def edge_cond(f, bid):
    """node id of the effective condition of a two-way block, or None"""
    b = f.cfg.b[bid]
    if len(b["s"]) != 2 or b.get("tc") is None or b.get("t") is None:
        return None
    k = f.N[b["t"]]["k"]
    if k in ("Switch", "Try"):
        return None
    if k == "RangeFor":
        return None
    if k in ("Bin",):      # && / || : condition is the LHS
        return b["tc"]
    if b["tc"] in b.get("e", ()):     # the value of the whole chain is computed here, after its parts
        return b["tc"]
    return rightmost(f, b["tc"])


class Facts:
    """Must-hold branch literals at every block entry; per-element on request."""

    def __init__(self, f, canon=None, entry=frozenset(), call_facts=None):
        self.f = f
        self.cn = canon or Canon(f)
        self.call_facts = call_facts     # function(n, nid, facts)-> extra facts after a call returns
        self.bymut = None
        cfg = f.cfg
        self.killmemo = {}
        self.IN = forward_facts(self, cfg, frozenset(entry))

    def kills(self, nid):
        """list of canonical prefixes changed by evaluating this element (not recursively)"""
        if nid in self.killmemo:
            return self.killmemo[nid]
        f, n = self.f, self.f.N[nid]
        k = n["k"]
        out = []
        if k == "Assign" or (k == "Un" and n["op"] in ("++", "--")):
            out.append((raw_path(f, n["c"][0], self.cn), "all"))
        elif k == "Call":
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("a", [])):
                if i < len(pm) and pm[i] in ("m", "P"):
                    if n.get("fn") in TRANSPARENT:
                        continue
                    out.append((raw_path(f, a, self.cn), "all"))
            eff = effect_paths(f, n, self.cn)
            if eff is not None:
                out = [(p, "all") for p in eff]
            elif n.get("o", -1) >= 0 and not n.get("mconst") and not n.get("static"):
                last = n.get("fn", "").rsplit("::", 1)[-1]
                if last in ("begin", "end", "operator[]", "at", "front", "back", "data", "operator->", "operator*", "get", "find", "value",
                            "cbegin", "cend", "rbegin", "rend", "operator bool", "lower_bound", "upper_bound", "get_read_lock", "get_write_lock"):
                    pass
                else:
                    out.append((raw_path(f, n["o"], self.cn), "grow" if last in GROW else "all"))
        elif k == "Decl":
            for v in n["vars"]:
                out.append((("v", v["v"]), "all"))
        self.killmemo[nid] = out
        return out

    def step(self, st, e):
        ks = self.kills(e)
        for path, how in ks:
            if how == "grow":
                st = frozenset(l for l in st if not (mentions(l[0], path) and not grow_ok(l)))
            else:
                st = frozenset(l for l in st if not mentions(l[0], path))
        if self.call_facts and self.f.N[e]["k"] in ("Call", "Ctor"):
            ex = self.call_facts(self, self.f.N[e], e)
            if ex:
                st = st | ex
        return st

    def transfer(self, b, st):
        for e in self.f.cfg.b[b]["e"]:
            st = self.step(st, e)
        return st

    def switch_edge(self, b, s, st):
        f = self.f
        blk = f.cfg.b[b]
        c = blk.get("tc")
        if c is None:
            return st
        cond = self.cn(c)
        lb = f.cfg.b[s].get("lb")
        if lb is not None and f.N[lb]["k"] == "Case":
            l = (("eq",) + tuple(sorted((cond, self.cn(f.N[lb]["c"][0])), key=repr)), True)
            if (l[0], False) in st:
                return None
            for a, t in st:
                if t and a[0] == "eq" and cond in a[1:] and a != l[0]:
                    o = a[2] if a[1] == cond else a[1]
                    if o[0] in ("enum", "int"):
                        return None
            return st | {l}
        out = set()
        for x in blk["s"]:
            if x is None or x == s:
                continue
            lx = f.cfg.b[x].get("lb")
            if lx is not None and f.N[lx]["k"] == "Case":
                out.add((("eq",) + tuple(sorted((cond, self.cn(f.N[lx]["c"][0])), key=repr)), False))
        for a, t in out:
            if (a, True) in st:
                return None
        return st | out

    def edge(self, b, idx, s, st):
        t = self.f.cfg.b[b].get("t")
        if t is not None and self.f.N[t]["k"] == "Switch":
            return self.switch_edge(b, s, st)
        c = edge_cond(self.f, b)
        if c is None:
            return st
        truth = idx == 0
        out = set()
        literals(self.cn(c), truth, out)
        # contradiction -> infeasible edge
        for a, t in out:
            if (a, not t) in st:
                return None
            if a[0] == "int" and bool(a[1]) != t:
                return None
        return st | out

    def at(self, nid):
        """facts just before element nid is evaluated (None if unreachable / not an element)"""
        w = self.f.cfg.where.get(nid)
        if w is None:
            return None
        b, k = w
        if b not in self.IN:
            return None
        st = self.IN[b]
        for e in self.f.cfg.b[b]["e"][:k]:
            st = self.step(st, e)
        return st

    def reachable(self, nid):
        w = self.f.cfg.where.get(nid)
        return w is not None and w[0] in self.IN


def grow_ok(l):
    a, t = l
    return (a[0] == "lt" and t)


def forward_facts(self, cfg, init):
    return ir.forward(cfg, init, self.transfer, lambda a, b: a & b, self.edge)


def effect_paths(f, n, cn):
    """canonical paths an in-program callee may write, from its effect summary; None if the callee is not in the program"""
    import effects
    ts = f.prog.targets(n)
    if not ts or (n.get("virt") and n.get("f") not in f.prog.F and not ts):
        return None
    E = f.prog.__dict__.get("_effects")
    if E is None:
        if f.prog.__dict__.get("_effects_building"):
            return None
        f.prog.__dict__["_effects_building"] = True
        E = effects.get(f.prog)
        f.prog.__dict__["_effects_building"] = False
    out = set()
    for t in ts:
        for root, fields in E.W.get(t, {}):
            if root == "this":
                if n.get("o", -1) < 0:
                    continue
                base = raw_path(f, n["o"], cn)
            elif isinstance(root, int):
                if root >= len(n.get("a", [])):
                    continue
                base = raw_path(f, n["a"][root], cn)
            elif isinstance(root, str):
                base = ("g", root[2:])
            else:
                base = cn.var(root[1]) if root[1] in varinfo(f) else None
                if base is None:
                    continue
            for fl in fields:
                if fl == "[]" or fl.startswith("<"):
                    break
                base = (".", base, fl)
            out.add(base)
    return out


def raw_path(f, nid, cn):
    """canonical path of an lvalue, not copy-propagating the variable itself if it is a plain scalar variable"""
    n = f.N[nid]
    if n["k"] == "Ref" and n.get("v"):
        g = varinfo(f).get(n["v"])
        if g is not None and not is_ref(g.t):
            return ("v", n["v"])
    return cn(nid)


def has_throw(prog, key, depth=3, memo=None):
    """function contains (or small callees contain) a throw expression"""
    memo = prog.__dict__.setdefault("_has_throw", {})
    kk = (key, depth)
    if kk in memo:
        return memo[kk]
    memo[kk] = False
    f = prog.F.get(key)
    if f is None:
        return False
    r = False
    for i in f.all_nodes():
        n = f.N[i]
        if n["k"] == "Throw":
            r = True
            break
        if depth > 0 and n["k"] in ("Call", "Ctor") and n.get("f") in prog.F and has_throw(prog, n["f"], depth - 1):
            r = True
            break
    memo[kk] = r
    return r


def call_env(cn, n, g):
    env = {}
    for p, a in zip(g.params, n.get("a", [])):
        env[p["v"]] = cn(a)
    if n.get("o", -1) >= 0:
        env["this"] = cn(n["o"])
    return env


class DeepFacts(Facts):
    """Facts that also use what validating callees guarantee when they return normally."""

    def __init__(self, f, canon=None, entry=frozenset(), depth=0, stack=()):
        self.depth = depth
        self.stack = stack + (f.key,)
        self.cf = {}
        super().__init__(f, canon, entry, self.callee_facts)

    def callee_facts(self, _self, n, nid):
        if self.depth >= 2:
            return None
        prog = self.f.prog
        ts = prog.targets(n)
        if len(ts) != 1 or ts[0] in self.stack:
            return None
        g = prog.F[ts[0]]
        if not g.cfg or len(g.N) > 400 or not has_throw(prog, g.key, 1):
            return None
        key = nid
        if key in self.cf:
            return self.cf[key]
        env = call_env(self.cn, n, g)
        F = DeepFacts(g, Canon(g, env, 1), frozenset(), self.depth + 1, self.stack)
        ex = F.IN.get(g.cfg.exit)
        res = frozenset()
        if ex:
            loc = {v for v in varinfo(g) if v not in env}
            res = frozenset(l for l in ex if not any(isinstance(t, tuple) and len(t) == 2 and t[0] == "v" and t[1] in loc for t in subterms(l[0])))
        self.cf[key] = res
        return res
