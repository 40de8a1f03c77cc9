"""C07: the sign of an operator word is never lost."""
import ir, core, dep, cp, pp, path

RULE = ("phase flow: every construction, copy, rewriting and rendering of an operator word is enumerated; the phase it is given is reduced to a linear form over Z4 in the phases "
        "of the words its letters come from (data dependence through locals), and must contain each of them with the coefficient the operation demands")
TECHNIQUE = "data-dependence analysis of word constructions with Z4 linear forms for the phase argument; must-pass path search for rewriting, zeroing and rendering"
LEVEL = "other"
SST = "Moment::SequenceSignType"
WORDS = ("Moment::HashedSequence", "Moment::OperatorSequence")
ENUM = {"Positive": 0, "Imaginary": 1, "Negative": 2, "NegativeImaginary": 3}


def is_word(t):
    return core.strip_cv(t.replace("&", "").strip()).strip() in WORDS


def bare(t):
    return core.strip_cv(t.replace("&", " ").strip()).strip()


def add(a, b, k=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for x, c in b.items():
        r[x] = (r.get(x, 0) + k * c) % 4
    return r


class Lin:
    """phase expressions as linear forms over Z4"""

    def __init__(self, f, cn=None, depth=0):
        self.f, self.cn, self.depth = f, cn or core.Canon(f), depth
        self.busy = set()

    def __call__(self, i):
        f = self.f
        n = f.N[i]
        k = n["k"]
        c = n.get("c", [])
        if k in ("Cast", "DefArg", "DefInit"):
            return self(c[0]) if c else None
        if k == "Ctor" and n.get("sp") in ("copy", "move"):
            return self(n["a"][0])
        if k == "Ref":
            if n.get("dk") == "enum":
                return {1: ENUM[n["n"].rsplit("::", 1)[-1]]} if n["n"].rsplit("::", 1)[-1] in ENUM else None
            if n.get("dk") in ("local", "slocal", "bind"):
                return self.var(n["v"])
            if n.get("dk") == "parm":
                e = self.cn.env.get(n["v"])
                if e is not None and e[0] != "v":
                    return {e: 1}
                return {("v", n["v"]): 1}
            return None
        if k == "Mem":
            if n["n"].rsplit("::", 1)[-1] == "sign":
                return {self.cn(c[0]) if c else ("this",): 1}
            return None
        if k == "Cond":
            a, b = self(c[1]), self(c[2])
            return a if a == b else None
        if k == "InitList" and len(c) == 1:
            return self(c[0])
        if k == "Call":
            fn = n.get("fn", "")
            last = fn.rsplit("::", 1)[-1]
            a = n.get("a", [])
            o = n.get("o", -1)
            if fn == "Moment::operator*" and len(a) == 2 and bare(f.ty(i)) == SST:
                return add(self(a[0]), self(a[1]))
            if fn == "Moment::conjugate" and len(a) == 1:
                return add({}, self(a[0]), -1)
            if fn == "Moment::negate" and len(a) == 1:
                return add({1: 2}, self(a[0]))
            if fn == "Moment::difference" and len(a) == 2:
                return add(self(a[1]), self(a[0]), -1)
            if fn == "Moment::HashedSequence::get_sign" and o >= 0:
                return {self.cn(o): 1}
            if fn in core.TRANSPARENT and len(a) == 1:
                return self(a[0])
            ts = f.prog.targets(n)
            if len(ts) == 1 and self.depth < 4:
                g = f.prog.F[ts[0]]
                r = core.simple_return(g)
                if r is not None and bare(g.ty(r)) == SST:
                    return Lin(g, core.Canon(g, core.call_env(self.cn, n, g), self.depth + 1), self.depth + 1)(r)
            return None
        return None

    def var(self, v):
        f = self.f
        g = core.varinfo(f).get(v)
        if g is None:
            p = f.prog.F.get(f.get("parent", "")) if f.get("lambda") else None
            return Lin(p, None, self.depth + 1).var(v) if p is not None and self.depth < 4 else None
        if v in self.busy:
            return {("self", v): 1}
        self.busy.add(v)
        try:
            res = self(g.init) if g.init is not None else None
            for m in g.muts:
                n = f.N[m]
                if n["k"] == "Assign" and n["op"] == "=":
                    e = self(n["c"][1])
                    if e is None:
                        return None
                    if e.get(("self", v)) == 1:
                        continue                       # a factor more
                    if set(e) <= {1} and e.get(1, 0) == 0:
                        continue                       # reset for a zero word
                    if res is None:
                        res = e
                    elif {k: c for k, c in res.items() if k != 1 and c} != {k: c for k, c in e.items() if k != 1 and c}:
                        return None
            return res
        finally:
            self.busy.discard(v)


def sources(f, cn, nid):
    """words whose letters flow into the expression: {canonical word: node}"""
    out = {}
    for g, c, x in dep.closure(f, nid, cn):
        n = g.N[x]
        k = n["k"]
        if k == "Call":
            fn = n.get("fn", "")
            o = n.get("o", -1)
            if fn.startswith("Moment::HashedSequence::") and fn.rsplit("::", 1)[-1] in ("raw", "begin", "end", "operator[]") and o >= 0:
                out.setdefault(c(o), (g, x))
            elif fn.startswith("Moment::HashedSequence::operator ") and o >= 0:
                out.setdefault(c(o), (g, x))
            elif fn.startswith("Moment::HashedSequence::"):
                continue
            elif o >= 0 and fn.rsplit("::", 1)[-1] == "apply_match_with_hint":
                out.setdefault(("rule", c(o)), (g, x))
        elif k == "Mem" and n["n"].rsplit("::", 1)[-1] == "operators" and n.get("c") and is_word(g.ty(n["c"][0]).replace("*", "")):
            out.setdefault(c(n["c"][0]), (g, x))
        elif k == "RangeFor" and is_word(g.ty(n["range"])):
            out.setdefault(c(n["range"]), (g, x))
        elif k == "Ref" and n.get("dk") in ("local", "bind", "parm"):
            r = dep.loop_of_var(g, n["v"]) if n["v"] in core.varinfo(g) else None
            if r is not None and is_word(g.ty(g.N[r]["range"])):
                out.setdefault(c(g.N[r]["range"]), (g, x))
    return out


def word_args(f, n):
    """(operators argument, sign argument or None, zero/identity flag argument or None) of a word construction"""
    a = n.get("a", [])
    ops = sign = flag = None
    for x in a:
        t = bare(f.ty(x))
        if t == SST:
            sign = x
        elif "SmallVector<short" in t or "sequence_storage_t" in t:
            ops = x
        elif t == "bool":
            flag = x
    return ops, sign, flag


def lhs_word(w):
    """left hand sides of rules have no phase (established by the rule's constructor, checked as rule-left-side)"""
    return w[0] == "." and w[2] == "rawLHS" or (w[0] == "call" and str(w[1]).endswith("::LHS"))


def coefficient(lin, w):
    if w[0] == "rule":
        return lin.get((".", w[1], "rawRHS"), 0)
    return lin.get(w, 0)


def want_conj(f):
    return f.name.rsplit("::", 1)[-1] == "conjugate"


def show(w):
    if w[0] == "rule":
        return "the applied rule " + show(w[1])
    if w[0] in ("v",):
        return str(w[1]).split("@")[0]
    if w[0] == "this":
        return "this word"
    if w[0] == ".":
        return show(w[1]) + "." + w[2] if w[1][0] != "this" else w[2]
    return str(w)[:60]


def constructions(prog, rep):
    for f in prog.live():
        if f.body < 0 or f.name.startswith("std::"):
            continue
        cn = None
        for i in f.all_nodes():
            n = f.N[i]
            k = n["k"]
            if k == "Ctor" and n.get("cls") in WORDS and n.get("sp") not in ("copy", "move"):
                pass
            elif k == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("emplace_back", "make_optional", "emplace", "construct_at", "make_unique", "make_shared") and any("OperatorSequence" in t or "HashedSequence" in t for t in (f.ty(i), f.ty(n["o"]) if n.get("o", -1) >= 0 else "")):
                et = f.ty(n["o"]) if n.get("o", -1) >= 0 else f.ty(i)
                if not any(("<" + w) in et for w in WORDS):
                    continue
            else:
                continue
            ops, sign, flag = word_args(f, n)
            if cn is None:
                cn = core.Canon(f)
            if ops is None:
                if flag is not None:
                    derived_flag(f, cn, i, flag, rep)
                continue
            src = {w: at for w, at in sources(f, cn, ops).items() if not lhs_word(w) and not sanctioned(f, w)}
            if not src:
                continue
            if in_rule(f, i):
                continue            # judged as a pair
            key = "%s: %s" % (f.short, ",".join(sorted(show(w) for w in src)))
            if sign is None or f.N[sign]["k"] == "DefArg":
                lin = later_signed(f, cn, i)
            else:
                lin = Lin(f, cn)(sign)
            if lin is None:
                rep.note("%s: phase expression not understood: %s" % (f.loc(i), pp.ex(f, sign)[:80]))
                continue
            want = 3 if want_conj(f) else 1
            for w, (g, x) in sorted(src.items(), key=repr):
                c = coefficient(lin, w)
                if c == want:
                    rep.ok("word-sign", key, f.loc(i))
                else:
                    rep.bad("word-sign", key, f.loc(i), "%s builds a word from the letters of %s, but the new word's phase %s" %
                            (f.short, show(w), "does not include the phase of that word" if c == 0 else "includes it as power %d instead of %d (conjugate)" % (c if c < 2 else c - 4, want if want < 2 else -1)))


# constructions whose source words are known to carry phase +1 (function, reason)
PLUS_ONE = {
    "Inflation::InflationContext::factorize": "factors a registered moment, and registered moments carry phase +1 (SymbolTable::merge_in, checked by rule registered-plus)",
}


def sanctioned(f, w):
    return f.short in PLUS_ONE


def in_rule(f, i):
    """is the word being built one side of an operator rule"""
    par = f.parents()
    p = par.get(i)
    while p is not None and f.N[p]["k"] in ("Cast", "Ctor", "InitList", "Cond"):
        if f.N[p]["k"] == "Ctor" and f.N[p].get("cls", "").endswith("::OperatorRule"):
            return p
        p = par.get(p)
    return None


def later_signed(f, cn, i):
    """phase given to the new word right after it was built: local variable then set_sign on every path"""
    par = f.parents()
    p = par.get(i)
    while p is not None and f.N[p]["k"] in ("Cast", "Ctor", "InitList", "Call"):
        p = par.get(p)
    if p is not None and f.N[p]["k"] == "Decl" and len(f.N[p]["vars"]) == 1 and f.cfg:
        v = f.N[p]["vars"][0]["v"]
        sets = [x for x in f.all_nodes() if set_sign(f, x) and cn(f.N[x]["o"]) in (("v", v), ("ok", ("v", v)))]
        if sets and path.after(f, p, sets):
            return Lin(f, cn)(f.N[sets[0]]["a"][0])
    return {}


def derived_flag(f, cn, i, flag, rep):
    """word built as plain 0 or 1 from a test on another word: the other word's phase is gone unless it is zero"""
    src = set()
    for g, c, x in dep.closure(f, flag, cn):
        n = g.N[x]
        if n["k"] == "Call" and n.get("fn", "").startswith("Moment::HashedSequence::") and n.get("o", -1) >= 0:
            src.add(c(n["o"]))
    if f.get("ctor") or not src:
        return
    t = cn(flag)
    if t[0] == "int" and t[1]:
        return
    for w in src:
        rep.bad("word-sign", "%s: %s" % (f.short, show(w)), f.loc(i), "%s answers with a plain 0 or 1 depending on %s, whose phase is lost when it is a multiple of the identity" % (f.short, show(w)))


def set_sign(f, x):
    n = f.N[x]
    return n["k"] == "Call" and n.get("fn") == "Moment::HashedSequence::set_sign" and n.get("o", -1) >= 0 and len(n.get("a", [])) == 1 and bare(f.ty(n["a"][0])) == SST


def reads_of(f, cn, w):
    """nodes that read the phase of word w"""
    out = []
    for x in f.all_nodes():
        n = f.N[x]
        if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("get_sign", "negated", "imaginary", "rule_sign") and n.get("o", -1) >= 0:
            t = cn(n["o"])
            if t == w or (w[0] == "." and t == w[1]):
                out.append(x)
        elif n["k"] == "Mem" and n["n"].rsplit("::", 1)[-1] == "sign" and n.get("c") and cn(n["c"][0]) == w:
            out.append(x)
    return out


RESET_OK = {
    "Symbol::(ctor)": None,
    "SymbolTable::merge_in": "a moment is registered for the word with phase +1; the caller gets the phase from SymbolTable::where",
}


def resets(prog, rep):
    for f in prog.live():
        if f.body < 0 or not f.cfg:
            continue
        ss = [x for x in f.all_nodes() if set_sign(f, x) and x in f.cfg.where]
        if not ss:
            continue
        cn = core.Canon(f)
        for x in ss:
            n = f.N[x]
            w = cn(n["o"])
            a = n["a"][0]
            lin = Lin(f, cn)(a)
            key = "%s: %s" % (f.short, show(w))
            if lin is None:
                rep.note("%s: phase expression not understood" % f.loc(x))
                continue
            if set(k for k, c in lin.items() if c) <= {1}:
                if lin.get(1, 0):
                    rep.bad("phase-kept", key, f.loc(x), "%s gives %s a fixed phase other than +1" % (f.short, show(w)))
                    continue
                rd = reads_of(f, cn, w)
                if f.short == "Symbol::(ctor)" and not rd:
                    rep.ok("phase-kept", key, f.loc(x), "explicitly requested reset (construct_positive_tag)") if any("positive_tag" in f.T[p["t"]] for p in f.params) else \
                        rep.bad("phase-kept", key, f.loc(x), "the phase of %s is reset in %s without having been moved elsewhere" % (show(w), f.short))
                    continue
                if RESET_OK.get(f.short):
                    rep.ok("phase-kept", key, f.loc(x), RESET_OK[f.short])
                    continue
                good = any(path.before(f, x, [r]) for r in rd) or bool(rd) and path.before(f, x, rd)
                if not good and copied_from_plus(f, cn, x, w):
                    good = True
                rep.add(good, "phase-kept", key, f.loc(x), "the phase of %s is reset to +1 in %s on a path on which nothing has read it" % (show(w), f.short))
                if good:
                    rep.add(consumed(f, cn, x, w, rd), "phase-used", key, f.loc(x), "the phase of %s is reset to +1 in %s and on some path nothing takes the phase over" % (show(w), f.short))
                    partner(f, cn, x, w, ss, rep)
            elif w in lin or ("v" == w[0] and fresh(f, w[1])):
                good = lin.get(w, 0) == 1 or ("v" == w[0] and fresh(f, w[1]))
                rep.add(good, "phase-kept", key, f.loc(x), "%s gives %s a phase in which its own phase appears as power %d" % (f.short, show(w), lin.get(w, 0)))
            else:
                rep.bad("phase-kept", key, f.loc(x), "%s overwrites the phase of %s with one that does not contain it" % (f.short, show(w)))


def fresh(f, v):
    """local word built from a context only (an identity)"""
    g = core.varinfo(f).get(v)
    if g is None or g.init is None:
        return False
    return not any(is_word(f.ty(x)) and f.N[x]["k"] == "Ref" for x in f.walk(g.init))


def copied_from_plus(f, cn, x, w):
    """w is a copy of another word whose phase was read before"""
    if w[0] != "v":
        return False
    g = core.varinfo(f).get(w[1])
    if g is None or g.init is None:
        return False
    for y in f.walk(g.init):
        n = f.N[y]
        if n["k"] == "Ref" and n.get("dk") in ("local", "parm", "bind") and n["v"] != w[1] and is_word(f.ty(y)):
            rd = reads_of(f, cn, ("v", n["v"]))
            if rd and path.before(f, x, rd):
                return True
    return False


def consumed(f, cn, x, w, rd):
    """on every path through the reset x, the phase that was read enters another quantity"""
    ev = []
    for y in f.all_nodes():
        n = f.N[y]
        if y == x:
            continue
        if n["k"] == "Ctor" and n.get("cls", "").endswith("::OperatorRule") and len(n.get("a", [])) == 2:
            if zero_side(f, n):
                ev.append(y)
            continue
        if set_sign(f, y):
            if cn(n["o"]) != w and uses_read(f, cn, n["a"][0], w):
                ev.append(y)
            continue
        tgt = None
        if n["k"] == "Assign" and n["op"] != "=" or n["k"] == "Call" and n.get("op") in ("*=", "+=", "-=", "/="):
            tgt = n["c"] if n["k"] == "Assign" else [n["o"]] + n["a"] if n.get("o", -1) >= 0 else n["a"]
        elif n["k"] == "Assign" or n["k"] == "Call" and n.get("op") == "=":
            tgt = n["c"] if n["k"] == "Assign" else [n["o"]] + n["a"] if n.get("o", -1) >= 0 else n["a"]
        if tgt and len(tgt) == 2 and bare(f.ty(tgt[0])) not in ("bool",) and not is_word(f.ty(tgt[0])):
            if uses_read(f, cn, tgt[1], w) or any(uses_read(f, cn, c, w) for c in dep.enclosing_conds(f, y)):
                ev.append(y)
    if w[0] == "v" and core.varinfo(f).get(w[1]) is not None and copied_from_plus(f, cn, x, w) and not ev:
        return False
    return bool(ev) and (path.before(f, x, ev) or path.after(f, x, ev))


def uses_read(f, cn, i, w):
    for g, c, y in dep.closure(f, i, cn):
        n = g.N[y]
        if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("get_sign", "rule_sign", "negated", "imaginary") and n.get("o", -1) >= 0:
            t = c(n["o"])
            if t == w or w[0] == "v":
                return True
        if n["k"] == "Mem" and n["n"].rsplit("::", 1)[-1] == "sign":
            return True
    return False


def same_letters(prog, rep):
    """two words of rules found to have the same letters: what follows depends on their phases"""
    for f in prog.live():
        if f.body < 0 or not f.cfg or "Algebraic::OperatorRule" not in f.name:
            continue
        cn = core.Canon(f)
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Bin" or n["op"] != "==" or i not in f.cfg.where:
                continue
            h = [hash_recv(f, c) for c in n["c"]]
            if None in h:
                continue
            ws = [cn(x) for x in h]
            if ws[0] == ws[1]:
                continue
            rd = [y for w in ws for y in reads_of(f, cn, w)]
            b = f.cfg.where[i][0]
            good = bool(rd) and (path.before(f, i, rd) or any(path.edge_after(f, b, s, rd) for s in f.cfg.succ[b][:1]) or path.after(f, i, rd))
            rep.add(good, "same-letters", "%s: %s" % (f.short, ", ".join(map(show, ws))), f.loc(i), "%s treats %s and %s as the same word when their letters agree, without looking at their phases" % (f.short, show(ws[0]), show(ws[1])))


def partner(f, cn, x, w, ss, rep):
    """a phase moved from one side of a relation to the other: the other side must get it with the right power"""
    cls = f.get("class", "") or f.short
    for y in ss:
        if y == x:
            continue
        v = cn(f.N[y]["o"])
        if v == w or not (path.reach(f, x, y) or path.reach(f, y, x)):
            continue
        lin = Lin(f, cn)(f.N[y]["a"][0])
        if not lin or set(k for k, c in lin.items() if c) <= {1}:
            continue
        want = 1 if "Symbol::" in f.short else 3
        rep.add(lin.get(w, 0) == want, "phase-moved", "%s: %s to %s" % (f.short, show(w), show(v)), f.loc(y),
                "the phase taken from %s enters the phase of %s as power %d instead of %d" % (show(w), show(v), lin.get(w, 0) if lin.get(w, 0) < 3 else -1, 1 if want == 1 else -1))


def rules(prog, rep):
    """operator rules: both sides built together"""
    seen = set()
    for f in prog.live():
        if f.body < 0:
            continue
        cn = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Ctor" or not n.get("cls", "").endswith("::OperatorRule") or n.get("sp") in ("copy", "move") or len(n.get("a", [])) != 2:
                continue
            cn = cn or core.Canon(f)
            tot, src = {}, {}
            known = True
            for side, a in enumerate(n["a"]):
                k = -1 if side == 0 else 1
                c = build(f, a)
                if c is None:
                    known = False
                    continue
                ops, sign, flag = word_args(f, f.N[c])
                if ops is None:
                    continue
                ws = {w for w in sources(f, cn, ops) if not lhs_word(w)}
                lin = Lin(f, cn)(sign) if sign is not None and f.N[sign]["k"] != "DefArg" else {}
                if lin is None:
                    known = False
                    continue
                tot = add(tot, lin, k)
                for w in ws:
                    src[w] = (src.get(w, 0) + k) % 4
            if not known or not src or zero_side(f, n):
                continue
            for w, want in sorted(src.items(), key=repr):
                c = coefficient(tot, w)
                rep.add(c == want, "rule-phase", "%s: %s" % (f.short, show(w)), f.loc(i),
                        "%s: the phase of the derived rule contains the phase of %s as power %d instead of %d" % (f.short, show(w), c if c < 3 else -1, want if want < 3 else -1))
    for f in prog.live():
        if f.get("ctor") and f.short.endswith("OperatorRule::(ctor)") and f.cfg and len(f.params) == 2 and all(is_word(f.T[p["t"]]) for p in f.params):
            cn = core.Canon(f)
            sets = [x for x in f.all_nodes() if set_sign(f, x) and str(cn(f.N[x]["o"])[-1]) == "rawLHS"]
            ok = bool(sets) and not path.escape(f, sets)
            rep.add(ok, "rule-left-side", f.short, f.loc(f.body), "an operator rule can be built whose left hand side keeps a phase: matching ignores phases there")
            for i in f.all_nodes():
                n = f.N[i]
                if n["k"] == "Assign" and cn(n["c"][0])[-1] == "is_trivial" and cn(n["c"][1]) == ("int", 1):
                    good = any(reads_of_any(f, c) for c in dep.enclosing_conds(f, i))
                    rep.add(good, "rule-trivial", f.short, f.loc(i), "a rule between a word and a multiple of itself is dropped as trivial whatever the multiple")


def reads_of_any(f, c):
    return any(f.N[x]["k"] == "Call" and f.N[x].get("fn", "").rsplit("::", 1)[-1] in ("get_sign", "negated", "rule_sign") or f.N[x]["k"] == "Mem" and f.N[x]["n"].rsplit("::", 1)[-1] == "sign"
               for g, cn, x in dep.closure(f, c) if g is f)


def zero_side(f, n):
    """the right hand side is zero: phases do not matter"""
    for x in f.walk(n["a"][1]):
        m = f.N[x]
        if m["k"] == "Ctor" and m.get("cls") in WORDS and m.get("sp") not in ("copy", "move"):
            ops, sign, flag = word_args(f, m)
            return flag is not None and ops is None
    return False


def build(f, a):
    """the word construction inside an argument"""
    for x in f.walk(a):
        n = f.N[x]
        if n["k"] == "Ctor" and n.get("cls") in WORDS and n.get("sp") not in ("copy", "move"):
            return x
        if n["k"] in ("Call", "Ref", "Mem"):
            return None
    return None


def rewriting(prog, rep):
    """each replacement by a rule multiplies the rule's phase in, exactly once"""
    for f in prog.live():
        if f.body < 0 or not f.cfg or f.short.endswith("OperatorRule::combine"):
            continue
        ap = [x for x in f.all_nodes() if f.N[x]["k"] == "Call" and f.N[x].get("fn", "").endswith("::apply_match_with_hint") and f.N[x].get("o", -1) >= 0 and x in f.cfg.where]
        if not ap:
            continue
        cn = core.Canon(f)
        for x in ap:
            r = cn(f.N[x]["o"])
            if r == ("this",):
                continue
            mult = []
            for y in f.all_nodes():
                n = f.N[y]
                val = None
                if n["k"] == "Assign" and n["op"] == "=" and bare(f.ty(n["c"][0])) == SST:
                    val, tgt = n["c"][1], n["c"][0]
                elif n["k"] == "Call" and n.get("op") == "=" and bare(f.ty(y)) == SST:
                    val, tgt = n["a"][0], n["o"]
                if val is None:
                    continue
                lin = Lin(f, cn)(val)
                if lin and lin.get((".", r, "rawRHS"), 0):
                    mult.append((y, lin, cn(tgt)))
            key = "%s" % f.short
            if not mult:
                rep.bad("rewrite-phase", key, f.loc(x), "%s replaces part of a word by the right hand side of a rule without multiplying the rule's phase in" % f.short)
                continue
            ys = [m[0] for m in mult]
            once = path.after(f, x, ys, until=[x]) or all(path.before(f, x, ys, start=z) for z in [x]) and path.before(f, x, ys)
            rep.add(once, "rewrite-phase", key, f.loc(x), "%s can replace part of a word by the right hand side of a rule without multiplying the rule's phase in" % f.short)
            for y, lin, tgt in mult:
                c = lin.get((".", r, "rawRHS"), 0)
                own = lin.get(tgt, 0) == 1 or any(k[0] == "self" for k in lin if isinstance(k, tuple)) or lin.get(("v", tgt[1] if len(tgt) > 1 else ""), 0) == 1
                rep.add(c == 1 and own, "rewrite-phase", key + ": factor", f.loc(y), "%s: the phase after a replacement is not the old phase times the rule's phase" % f.short)
                twice = any(z != y and path.reach(f, y, z, avoid=[x]) for z in ys) or path.reach(f, y, y, avoid=[x])
                rep.add(not twice, "rewrite-phase", key + ": once", f.loc(y), "%s multiplies the phase of a rule in twice for one replacement" % f.short)


def zero_events(f, cn, depth=0):
    ev, ph = [], []
    ret_bool = core.strip_cv(f.rt if hasattr(f, "rt") else "") == "bool"
    for x in f.all_nodes():
        n = f.N[x]
        k = n["k"]
        last = n.get("fn", "").rsplit("::", 1)[-1]
        if k == "Ctor" and n.get("cls") in WORDS and len(n.get("a", [])) >= 1:
            ops, sign, flag = word_args(f, n)
            if flag is not None and cn(flag) == ("int", 1):
                ev.append(x)
                ph.append(x)
        elif k == "Call" and last in ("set_to_zero", "Zero"):
            ev.append(x)
            ph.append(x)
        elif k == "Call" and depth < 2 and len(f.prog.targets(n)) == 1 and cleared(f.prog.F[f.prog.targets(n)[0]], depth):
            e2, p2 = cleared(f.prog.F[f.prog.targets(n)[0]], depth)
            if e2:
                ev.append(x)
            if p2:
                ph.append(x)
        elif k == "Assign" and cn(n["c"][0])[-1] == "the_hash" and cn(n["c"][1]) == ("int", 0):
            ev.append(x)
        elif k == "Assign" and cn(n["c"][0])[-1] == "sign" and Lin(f, cn)(n["c"][1]) in ({}, {1: 0}):
            ph.append(x)
        elif k == "Return" and n.get("c"):
            t = cn(n["c"][0])
            if t == ("int", 1) or (t[0] == "enum" and t[1].endswith("SetToZero")):
                ev.append(x)
                ph.append(x)
    return ev, ph


def cleared(g, depth):
    """a helper without result: does it set the hash to zero, and the phase to +1, on every path"""
    if not g.cfg or g.get("ctor") or g.get("lambda") or len(g.N) > 120 or "rt" not in g.d or g.T[g.d["rt"]].strip() != "void":
        return None
    e, p = zero_events(g, core.Canon(g), depth + 1)
    if not e or path.escape(g, e):
        return None
    return True, bool(p) and not path.escape(g, p)


def zeroes(prog, rep):
    for f in prog.live():
        if f.body < 0 or not f.cfg:
            continue
        cn = core.Canon(f)
        intr = False
        for x in f.all_nodes():
            n = f.N[x]
            if (n["k"] == "Ref" and n.get("dk") == "enum" and n["n"].endswith("::SetToZero")) or (n["k"] == "Call" and n.get("fn", "").endswith("::additional_simplification")):
                intr = True
        if not intr or "ostream" in f.ty(f.body if False else f.body) or "ostream" in " ".join(f.T[p["t"]] for p in f.params):
            continue
        F = core.Facts(f, cn)
        ev, ph = zero_events(f, cn)
        vi = core.varinfo(f)

        def is_call(t):
            if t[0] == "call" and str(t[1]).endswith("additional_simplification"):
                return True
            if t[0] == "v" and t[1] in vi and vi[t[1]].init is not None:
                return any(f.N[y]["k"] == "Call" and f.N[y].get("fn", "").endswith("::additional_simplification") for y in f.walk(vi[t[1]].init))
            return False
        for b in f.cfg.reach:
            for idx, s in enumerate(f.cfg.b[b]["s"]):
                if s is None:
                    continue
                lits = F.edge(b, idx, s, frozenset())
                if not lits:
                    continue
                hit = False
                for a, t in lits:
                    if not t:
                        continue
                    if a[0] == "eq" and any(isinstance(z, tuple) and z[0] == "enum" and str(z[1]).endswith("SetToZero") for z in a[1:]):
                        hit = True
                    elif is_call(a) or a[0] == "ok" and is_call(a[1]):
                        hit = True
                if not hit:
                    continue
                loc = f.loc(f.cfg.b[b].get("t") or f.body)
                z = path.edge_after(f, b, s, ev)
                rep.add(z, "zero-result", f.short, loc, "%s: a word found to be zero is not turned into zero on some path" % f.short)
                if z:
                    rep.add(path.edge_after(f, b, s, ph), "zero-phase", f.short, loc, "%s: a word that became zero keeps a left-over phase, so two zeros can differ" % f.short)
        # rules that map to zero
        for x in f.all_nodes():
            n = f.N[x]
            if n["k"] == "Call" and n.get("fn", "").endswith("::apply_match_with_hint") and n.get("o", -1) >= 0 and x in f.cfg.where:
                r = cn(n["o"])
                st = F.at(x)
                if st is None:
                    continue
                good = any(not t and a[0] == "eq" and (".", (".", r, "rawRHS"), "the_hash") in a[1:] and ("int", 0) in a[1:] for a, t in st) or any(not t and a == (".", r, "map_to_zero") for a, t in st)
                rep.add(good, "zero-rule", f.short, f.loc(x), "%s applies a rule without having checked that the rule does not send the word to zero (zero would become the identity)" % f.short)


def equality(prog, rep):
    for nm, want in (("Moment::HashedSequence::operator==", lambda h, a, b: int(h and a == b)), ("Moment::HashedSequence::operator!=", lambda h, a, b: int(not (h and a == b))),
                     ("Moment::HashedSequence::compare_same_negation", lambda h, a, b: 0 if not h or (a - b) % 2 else (1 if a == b else -1))):
        for f in prog.find(nm, need=False):
            if f.body < 0:
                continue
            bad = []
            unknown = False
            for h in (0, 1):
                for a in range(4):
                    for b in range(4):
                        L = {"the_hash": 7, "sign": a, "operators": None}
                        R = {"the_hash": 7 if h else 8, "sign": b, "operators": None}
                        try:
                            args = [L, R] if len(f.params) == 2 else [R]
                            got = cp.call(prog, f, args, this=None if len(f.params) == 2 else L)
                        except cp.Unknown:
                            unknown = True
                            continue
                        if int(got) != want(h, a, b):
                            bad.append((h, a, b, got))
            if unknown:
                rep.note("%s could not be evaluated for all phases" % f.short)
                continue
            rep.add(not bad, "phase-compare", f.short, f.loc(f.body), "%s gives %s for phases %s of words with %s letters" %
                    ((f.short, bad[0][3], "i^%d and i^%d" % (bad[0][1], bad[0][2]), "equal" if bad[0][0] else "different") if bad else ("", "", "", "")))
    # classes identified by a word
    for r in prog.R.values():
        ws = [x["n"] for x in r.get("fields", []) if is_word(x.get("t", ""))]
        if not ws or r["name"].endswith("OperatorRule"):
            continue
        for f in prog.live():
            if f.body >= 0 and f.name.startswith(r["name"] + "::operator") and f.name[len(r["name"]) + 2:] in ("operator<", "operator==", "operator<=>", "operator!=", "operator>"):
                cn = core.Canon(f)
                for w in ws:
                    used = any(f.N[x]["k"] == "Mem" and f.N[x]["n"].rsplit("::", 1)[-1] in (w, w + "Hash") for x in f.all_nodes())
                    if not used:
                        continue
                    rd = [x for x in f.all_nodes() if f.N[x]["k"] == "Call" and f.N[x].get("fn", "").rsplit("::", 1)[-1] in ("get_sign", "operator==", "operator!=")
                          and any(f.N[y]["k"] == "Mem" and f.N[y]["n"].rsplit("::", 1)[-1] == w for y in f.walk(x))]
                    rep.add(bool(rd), "phase-identity", "%s: %s" % (f.short, w), f.loc(f.body), "%s compares the letters of %s but not its phase, so objects made from words that differ only in phase are taken for the same" % (f.short, w))
    # Hermiticity decided by comparing words
    for f in prog.live():
        if f.body < 0:
            continue
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Bin" or n["op"] not in ("==", "!="):
                continue
            h = [hash_recv(f, c) for c in n["c"]]
            if None in h:
                continue
            cn = core.Canon(f)
            wa, wb = cn(h[0]), cn(h[1])
            if not (conj_of(f, cn, h[0]) or conj_of(f, cn, h[1])):
                continue
            rd = reads_of(f, cn, wa) + reads_of(f, cn, wb)
            rep.add(bool(rd), "phase-hermitian", "%s: %s" % (f.short, pp.ex(f, i)[:60]), f.loc(i), "%s compares a word with a conjugate word by hash alone: a word that equals minus its conjugate passes" % f.short)


def hash_recv(f, i):
    n = f.N[i]
    while n["k"] == "Cast" and n.get("c"):
        i = n["c"][0]
        n = f.N[i]
    if n["k"] == "Call" and n.get("fn") == "Moment::HashedSequence::hash" and n.get("o", -1) >= 0:
        return n["o"]
    return None


def conj_of(f, cn, i):
    return any(g.N[x]["k"] == "Call" and g.N[x].get("fn", "").rsplit("::", 1)[-1] == "conjugate" for g, c, x in dep.closure(f, i, cn))


def moments(prog, rep):
    """moments made from a word looked up by hash carry the word's phase"""
    for f in prog.live():
        if f.body < 0 or not f.cfg:
            continue
        look = [x for x in f.all_nodes() if f.N[x]["k"] == "Call" and f.N[x].get("fn", "") in ("Moment::SymbolTable::hash_to_index", "Moment::SymbolTable::where")]
        if not look:
            continue
        cn = core.Canon(f)
        F = None
        for i in f.all_nodes():
            n = f.N[i]
            mono = (n["k"] == "Ctor" and n.get("cls") == "Moment::Monomial" and n.get("sp") not in ("copy", "move")) or \
                   (n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("emplace_back", "emplace") and n.get("o", -1) >= 0 and "Monomial" in f.ty(n["o"]))
            if not mono or not n.get("a"):
                continue
            clos = {}
            for a in n["a"]:
                for g, c, x in dep.closure(f, a, cn):
                    if g is f:
                        clos[x] = 1
            lk = [x for x in look if x in clos]
            if not lk:
                continue
            words = set()
            for x in lk:
                for a in f.N[x]["a"]:
                    for g, c, y in dep.closure(f, a, cn):
                        m = g.N[y]
                        if m["k"] == "Call" and m.get("fn") == "Moment::HashedSequence::hash" and m.get("o", -1) >= 0:
                            words.add(c(m["o"]))
                        elif m["k"] == "Ref" and is_word(g.ty(y)):
                            words.add(c(y))
                        elif m["k"] == "Mem" and is_word(g.ty(y)):
                            words.add(c(y))
            if not words:
                continue
            osg = all(any("OperatorSequenceGenerator" in g.ty(y) for a in f.N[x]["a"] for g, c, y in dep.closure(f, a, cn) if "t" in g.N[y]) for x in lk)
            if osg:
                rep.ok("moment-phase", "%s: dictionary word" % f.short, f.loc(i), "the word comes from the dictionary, whose words carry phase +1")
                continue
            if all(w[0] == "." and w[2] == "sequence" for w in words):
                rep.ok("moment-phase", "%s: %s" % (f.short, ",".join(sorted(map(show, words)))), f.loc(i), "elements of raw polynomials carry phase +1 (rule phase-kept on RawPolynomialElement)")
                continue
            sig = [x for x in clos if f.N[x]["k"] == "Call" and f.N[x].get("fn", "").rsplit("::", 1)[-1] in ("get_sign", "negated", "imaginary", "to_scalar")]
            good = bool(sig)
            if not good:
                F = F or core.Facts(f, cn)
                st = F.at(i) or frozenset()
                if st is not None and any(t and a[0] == "eq" and any(isinstance(z, tuple) and z[0] == "." and z[2] == "sign" and z[1] in words for z in a[1:]) for a, t in st):
                    good = True
            rep.add(good, "moment-phase", "%s: %s" % (f.short, ",".join(sorted(map(show, words)))), f.loc(i), "%s makes a moment from the symbol found for a word, but the word's phase does not enter the moment's factor" % f.short)


def rendering(prog, rep):
    """every non-zero word is printed with its phase"""
    for f in prog.live():
        if f.body < 0 or not f.cfg:
            continue
        ps = [p for p in f.params if is_word(f.T[p["t"]])]
        os_ = [p for p in f.params if "ostream" in f.T[p["t"]] or "ContextualOS" in f.T[p["t"]]]
        rule = [p for p in f.params if bare(f.T[p["t"]]).endswith("::OperatorRule")]
        nm = f.name.rsplit("::", 1)[-1]
        wrap = [(p, x["n"]) for p in f.params for r in prog.R.values() if r["name"] == bare(f.T[p["t"]]) for x in r.get("fields", []) if bare(x.get("t", "")).endswith("::OperatorRule")]
        if not (nm.endswith("format_sequence") or nm == "operator<<") or not (ps or (rule or wrap) and os_):
            continue
        cn = core.Canon(f)
        if not ps and not rule:
            rule = [wrap[0][0]]
            w = (".", (".", ("v", rule[0]["v"]), wrap[0][1]), "rawRHS")
        else:
            w = ("v", ps[0]["v"]) if ps else (".", ("v", rule[0]["v"]), "rawRHS")
        rd = []
        neg, img = [], []
        for x in f.all_nodes():
            n = f.N[x]
            last = n.get("fn", "").rsplit("::", 1)[-1]
            if n["k"] == "Call" and n.get("o", -1) >= 0 and last in ("get_sign", "rule_sign"):
                rd.append(x)
            elif n["k"] == "Call" and last == "negated":
                neg.append(x)
            elif n["k"] == "Call" and last == "imaginary":
                img.append(x)
            elif n["k"] == "Mem" and n["n"].rsplit("::", 1)[-1] == "sign" and n.get("c") and cn(n["c"][0]) == w:
                rd.append(x)
            elif n["k"] == "Call" and any(a >= 0 and ps and f.N[strip(f, a)]["k"] == "Ref" and f.N[strip(f, a)].get("v") == ps[0]["v"] for a in n.get("a", [])) and (last.endswith("format_sequence") or n.get("op") == "<<"):
                rd.append(x)
        F = core.Facts(f, cn)
        if not f.params and not rd:
            continue
        # formats without the word (debug print of the raw letters)
        uses = any(f.N[x]["k"] == "Ref" and f.N[x].get("v") == (ps[0]["v"] if ps else rule[0]["v"]) for x in f.all_nodes())
        if not uses:
            continue

        zero_t = (".", w, "the_hash")

        def edge_ok(b, s):
            for idx, q in enumerate(f.cfg.b[b]["s"]):
                if q == s:
                    l = F.edge(b, idx, s, frozenset())
                    if l is None:
                        continue
                    if any(t and a[0] == "eq" and zero_t in a[1:] and ("int", 0) in a[1:] for a, t in l):
                        continue
                    return True
            return False
        good = not path.escape(f, rd, edge_ok)
        if not good and neg and img:
            good = not path.escape(f, rd + neg, edge_ok) and not path.escape(f, rd + img, edge_ok)
        rep.add(good, "phase-shown", f.short + ("(%s)" % os_[0]["n"] if os_ else "()"), f.loc(f.body), "%s can print a non-zero word without having looked at its phase" % f.short)


def strip(f, i):
    while f.N[i]["k"] in ("Cast",) and f.N[i].get("c"):
        i = f.N[i]["c"][0]
    return i


def inplace(prog, rep):
    """calls that rewrite letters of a word in place are given that word's phase"""
    for f in prog.live():
        if f.body < 0:
            continue
        cn = None
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Call" or len(n.get("a", [])) < 2:
                continue
            pm = n.get("pm", "")
            sg = [a for k, a in enumerate(n["a"]) if k < len(pm) and pm[k] == "m" and bare(f.ty(a)) == SST]
            sq = [a for k, a in enumerate(n["a"]) if k < len(pm) and pm[k] == "m" and ("SmallVector<short" in bare(f.ty(a)) or "sequence_storage_t" in bare(f.ty(a)))]
            if len(sg) != 1 or len(sq) != 1:
                continue
            cn = cn or core.Canon(f)
            ws = set(sources(f, cn, sq[0]))
            ws = {w for w in ws if w[0] != "rule"}
            if f.N[sq[0]]["k"] == "Ref" and f.N[sq[0]].get("dk") == "parm" and f.N[sg[0]]["k"] == "Ref" and f.N[sg[0]].get("dk") == "parm":
                rep.ok("in-place-phase", f.short, f.loc(i), "letters and phase both passed on")
                continue
            if not ws:
                continue
            lin = Lin(f, cn)(sg[0])
            if lin is None:
                rep.note("%s: phase passed for rewriting not understood" % f.loc(i))
                continue
            for w in ws:
                rep.add(lin.get(w, 0) == 1, "in-place-phase", "%s: %s" % (f.short, show(w)), f.loc(i), "%s has the letters of %s rewritten with a phase that is not that word's" % (f.short, show(w)))
            # a local phase must be written back when the letters are rewritten in place
            if f.N[strip(f, sg[0])]["k"] == "Ref" and f.N[strip(f, sg[0])].get("dk") == "local":
                v = f.N[strip(f, sg[0])]["v"]
                seqlocal = f.N[strip(f, sq[0])]["k"] == "Ref" and f.N[strip(f, sq[0])].get("dk") == "local"
                used = [x for x in f.all_nodes() if (set_sign(f, x) or (f.N[x]["k"] == "Ctor" and f.N[x].get("cls") in WORDS)) and any(f.N[y]["k"] == "Ref" and f.N[y].get("v") == v for y in f.walk(x))]
                rep.add(bool(used), "in-place-phase", "%s: result" % f.short, f.loc(i), "%s drops the phase gained by rewriting" % f.short)


def check(prog, rep, tier):
    constructions(prog, rep)
    rules(prog, rep)
    resets(prog, rep)
    rewriting(prog, rep)
    same_letters(prog, rep)
    zeroes(prog, rep)
    equality(prog, rep)
    moments(prog, rep)
    rendering(prog, rep)
    inplace(prog, rep)
