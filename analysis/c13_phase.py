"""C13: phase arithmetic, Pauli products and mode dispatch are total and exact."""
import itertools, re
import ir, core, cp, pp

RULE = ("interprocedural constant propagation of every member of the finite phase, Hermiticity and Pauli domains through the functions that "
        "compute on them, compared with the group tables; must-facts of every branch on a phase, Pauli or policy value against what that branch "
        "emits or multiplies; every switch over an enumeration covers every enumerator and no case runs into the next")
TECHNIQUE = "exhaustive interprocedural constant propagation over finite domains; switch-coverage and branch-fact queries on the compiler AST/CFG"
LEVEL = "proof"

PH = [1, 1j, -1, -1j]
SST = "Moment::SequenceSignType::"
ENUM = {SST + "Positive": 0, SST + "Imaginary": 1, SST + "Negative": 2, SST + "NegativeImaginary": 3}


def z4(z):
    return min(range(4), key=lambda k: abs(PH[k] - z))


def first(prog, name, types):
    for f in prog.find(name, need=False):
        if len(f.params) == len(types) and all(t in f.T[p["t"]] for p, t in zip(f.params, types)):
            return f
    return None


def eval_term(t, env):
    """value of a canonical integer term under an assignment of parameters, or None"""
    if t[0] == "int":
        return t[1]
    if t[0] == "v":
        return env.get(t[1])
    if t[0] == "op":
        a, b = eval_term(t[2], env), eval_term(t[3], env)
        if a is None or b is None:
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "<<": a << b if 0 <= b < 64 else None}.get(t[1])
    if t[0] in ("new", "list") and len(t) == 3:
        return eval_term(t[2], env)
    return None


def algebra(prog, rep):
    S = "SequenceSignType"
    spec = [
        ("Moment::negate", 1, lambda a: z4(-PH[a])), ("Moment::is_negative", 1, lambda a: int(a >= 2)),
        ("Moment::is_imaginary", 1, lambda a: a % 2), ("Moment::conjugate", 1, lambda a: z4(PH[a].conjugate() if isinstance(PH[a], complex) else PH[a])),
        ("Moment::operator*", 2, lambda a, b: z4(PH[a] * PH[b])),
        ("Moment::difference", 2, lambda a, b: z4((PH[a].conjugate() if isinstance(PH[a], complex) else PH[a]) * PH[b])),
        ("Moment::are_negatives", 2, lambda a, b: int(abs(PH[a] + PH[b]) < .5)),
        ("Moment::to_scalar", 1, lambda a: complex(PH[a]))]
    e = prog.E.get("Moment::SequenceSignType")
    if not e:
        raise ir.AnalysisBroken("anchor vanished: enum SequenceSignType")
    num = {n: int(v) for n, v in e["e"]}
    order = [num.get(k) for k in ("Positive", "Imaginary", "Negative", "NegativeImaginary")]
    if None in order or len(num) != 4:
        raise ir.AnalysisBroken("SequenceSignType no longer has the four phases")
    back = {v: i for i, v in enumerate(order)}
    for name, k, orc in spec:
        f = first(prog, name, [S] * k)
        if f is None:
            rep.note("no definition of %s over phases" % name)
            continue
        for a in itertools.product(range(4), repeat=k):
            want = orc(*a)
            try:
                got = cp.call(prog, f, [order[x] for x in a])
            except cp.Unknown as u:
                rep.note("%s is not constant on %s (%s)" % (name, a, u))
                continue
            except cp.Thrown:
                got = "an exception"
            if name.split("::")[1] in ("negate", "conjugate", "operator*", "difference"):
                got = back.get(got, got)
                good = got == want
                w, g = "%s" % PH[want], (PH[got] if got in (0, 1, 2, 3) else got)
            elif name.endswith("to_scalar"):
                good = isinstance(got, complex) and got == want
                w, g = want, got
            else:
                good = bool(got) == bool(want)
                w, g = bool(want), bool(got)
            rep.add(good, "phase-algebra", "%s%s" % (name, a), f.loc(), "%s(%s) yields %s, must be %s" % (f.short, ", ".join(str(PH[x]) for x in a), g, w))
    # word accessors
    for nm, orc in (("Moment::HashedSequence::negated", lambda s: s >= 2), ("Moment::HashedSequence::imaginary", lambda s: s % 2)):
        for f in prog.find(nm, need=False):
            for s in range(4):
                try:
                    got = cp.run(prog, f, {}, {"sign": order[s]})
                except (cp.Unknown, cp.Thrown):
                    continue
                rep.add(bool(got) == bool(orc(s)), "phase-algebra", "%s(%d)" % (nm, s), f.loc(), "%s of a word with phase %s yields %s" % (f.short, PH[s], bool(got)))
    for f in prog.find("Moment::HashedSequence::compare_same_negation", need=False):
        for a, b, same in itertools.product(range(4), range(4), (0, 1)):
            env = {f.params[0]["v"]: {"sign": order[a], "the_hash": 7}, f.params[1]["v"]: {"sign": order[b], "the_hash": 7 if same else 8}}
            want = 0 if not same else 1 if a == b else -1 if abs(PH[a] + PH[b]) < .5 else 0
            try:
                got = cp.run(prog, f, env)
            except (cp.Unknown, cp.Thrown):
                continue
            rep.add(got == want, "phase-algebra", "compare_same_negation(%d,%d,%d)" % (a, b, same), f.loc(),
                    "comparing phases %s and %s of %s words yields %s, must be %s" % (PH[a], PH[b], "equal" if same else "different", got, want))
    # equality of words takes the phase into account
    for nm, pos in (("Moment::HashedSequence::operator==", 1), ("Moment::HashedSequence::operator!=", 0)):
        for f in prog.find(nm, need=False):
            for a, b, same in itertools.product(range(4), range(4), (0, 1)):
                env = {f.params[0]["v"]: {"sign": order[b], "the_hash": 7 if same else 8}}
                want = int((a == b and same) == bool(pos))
                try:
                    got = cp.run(prog, f, env, {"sign": order[a], "the_hash": 7})
                except (cp.Unknown, cp.Thrown):
                    continue
                rep.add(bool(got) == bool(want), "phase-algebra", "%s(%d,%d,%d)" % (nm, a, b, same), f.loc(), "%s on phases %s, %s of %s words yields %s" % (f.short, PH[a], PH[b], "equal" if same else "different", bool(got)))
    H = {"Moment::is_hermitian": lambda h: h in ("Hermitian", "Zero"), "Moment::is_antihermitian": lambda h: h in ("AntiHermitian", "Zero"),
         "Moment::is_zero": lambda h: h == "Zero"}
    he = prog.E.get("Moment::HermitianType")
    for nm, orc in H.items():
        f = first(prog, nm, ["HermitianType"])
        if f is None or not he:
            continue
        for n, v in he["e"]:
            try:
                got = cp.call(prog, f, [int(v)])
            except (cp.Unknown, cp.Thrown):
                continue
            rep.add(bool(got) == orc(n), "hermitian-type", "%s(%s)" % (nm, n), f.loc(), "%s(%s) yields %s" % (f.short, n, bool(got)))
    # thread policy
    pe = prog.E.get("Moment::Multithreading::MultiThreadPolicy")
    for f in prog.find("Moment::Multithreading::should_multithread", need=False):
        if len(f.params) != 3 or not pe:
            continue
        for n, v in pe["e"]:
            for thr, act in itertools.product((0, 1, 5, 6400), repeat=2):
                want = {"Never": False, "Always": True, "Optional": act >= thr}.get(n)
                if want is None:
                    continue
                try:
                    got = cp.call(prog, f, [int(v), thr, act])
                except (cp.Unknown, cp.Thrown):
                    continue
                rep.add(bool(got) == want, "policy", "%s %d %d" % (n, thr, act), f.loc(), "policy %s with threshold %d and size %d yields %s" % (n, thr, act, bool(got)))


# --- kinds of numbers in Pauli words: operator, qubit, Pauli number from 0, Pauli number from 1, signed product -----
def pauli_kinds(prog, rep):
    MP = "Moment::Pauli::(anon)::multiply_pauli"
    for f in prog.live():
        if "/pauli/pauli_context" not in f.rel or not f.cfg or f.get("lambda"):
            continue
        if f.name.rsplit("::", 1)[-1] in ("multiply_pauli", "multiply_pauli_with_id"):
            continue
        calls = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn", "").startswith(MP)]
        sorts = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn", "") in ("std::sort", "std::stable_sort")]
        if not calls and not sorts:
            continue
        defs = {}
        vi = core.varinfo(f)
        for v, g in vi.items():
            if g.init is not None:
                defs.setdefault(v, []).append((f, g.init))
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Assign" and n["op"] == "=":
                l = f.N[n["c"][0]]
                if l["k"] == "Ref" and l.get("v"):
                    defs.setdefault(l["v"], []).append((f, n["c"][1]))
        K = {}

        def kind(g, i, pk=None):
            n = g.N[i]
            k = n["k"]
            if k in ("Cast", "Paren"):
                return kind(g, n["c"][0], pk)
            if k == "Int":
                return frozenset([("int", int(n["val"]))])
            if k == "Ref":
                v = n.get("v")
                if pk and v in pk:
                    return pk[v]
                return K.get(v, frozenset())
            if (k == "Un" and n["op"] == "*") or (k == "Call" and n.get("op") in ("*", "[]") and len(n.get("a", [])) <= 1) or k == "Idx":
                return frozenset(["op"]) if "oper_name_t" in g.ty(i) or g.ty(i).replace("const ", "").rstrip("& ") in ("short", "int16_t", "Moment::oper_name_t", "std::int_fast16_t", "long", "int") else frozenset()
            if k == "Un" and n["op"] == "-":
                return frozenset("p4" if x == "sp4" else x for x in kind(g, n["c"][0], pk))
            if k == "Call" and n.get("fn", "").startswith(MP):
                return frozenset(["sp4"])
            if k == "Call" and n.get("fn", "") in ("std::abs", "abs", "labs"):
                return frozenset("p4" if x == "sp4" else x for x in kind(g, n["a"][0], pk))
            if k == "Call" and g.ty(i) and len(n.get("a", [])) == 1 and n.get("op") is None and n.get("fn", "").startswith("std::") is False:
                for t in prog.targets(n):
                    h = prog.F.get(t)
                    r = core.simple_return(h) if h else None
                    if r is not None and len(h.params) == 1:
                        return kind(h, r, {h.params[0]["v"]: kind(g, n["a"][0], pk)})
            if k in ("Bin", "Cond"):
                if k == "Cond":
                    return kind(g, n["c"][1], pk) | kind(g, n["c"][2], pk)
                out = set()
                for a in kind(g, n["c"][0], pk):
                    for b in kind(g, n["c"][1], pk):
                        out.add(comb(n["op"], a, b))
                return frozenset(out)
            return frozenset()

        def comb(op, a, b):
            if a == "?" or b == "?":
                return "?"
            ia, ib = isinstance(a, tuple), isinstance(b, tuple)
            if op == "/" and a == "op" and b == ("int", 3):
                return "q"
            if op == "%" and a == "op" and b == ("int", 3):
                return "p3"
            if op == "*" and (a, b) in (("q", ("int", 3)), (("int", 3), "q")):
                return "q3"
            if op == "+":
                if ia and not ib:
                    a, b, ia, ib = b, a, ib, ia
                if a == "p3" and b == ("int", 1):
                    return "p4"
                if b in ("p3",) and a == "q3" or a == "p3" and b == "q3":
                    return "op"
                if {a, b} & {"q3"} and {a, b} & {"p4", "sp4"}:
                    return "op+1"
            if op == "-" and b == ("int", 1):
                return {"p4": "p3", "sp4": "p3", "op+1": "op"}.get(a, "?")
            return "?"
        for _ in range(6):
            for v, ds in defs.items():
                K[v] = K.get(v, frozenset()) | frozenset().union(*[kind(g, i) for g, i in ds])
        ks = lambda g, i, pk=None: {x for x in kind(g, i, pk) if not isinstance(x, tuple)}

        def sink(g, i, want, what, pk=None):
            k = ks(g, i, pk)
            if not k:
                return
            if "?" in k:
                rep.bad("pauli-kind", "%s: %s" % (f.short, what), g.loc(i), "%s: %s is computed from an operator in an unknown way (neither number / 3, number %% 3, nor back)" % (f.short, what)) if len(k - {"?"}) == 0 and derives_op(g, i) else rep.note("%s: kind unclear" % g.loc(i))
                return
            rep.add(k <= want, "pauli-kind", "%s: %s" % (f.short, what), g.loc(i), "%s: %s is a %s" % (f.short, what, ", ".join(NAMES.get(x, x) for x in sorted(k - want))))
        NAMES = {"op": "whole operator number", "q": "qubit number", "p3": "Pauli number counted from 0", "p4": "Pauli number counted from 1", "sp4": "signed product", "q3": "qubit offset", "op+1": "operator number plus one"}

        def derives_op(g, i):
            return False
        for i in calls:
            n = f.N[i]
            want = {"p4", "sp4"} if n["fn"].endswith("_with_id") else {"p3"}
            for j, a in enumerate(n["a"]):
                sink(f, a, want, "operand %d of the product" % (j + 1))
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] == "Call" and n.get("fn", "").rsplit("::", 1)[-1] in ("emplace_back", "push_back") and len(n.get("a", [])) == 1 and calls:
                sink(f, n["a"][0], {"op"}, "operator written")
            if n["k"] == "Assign" and n["op"] == "=" and f.N[strip_(f, n["c"][0])]["k"] in ("Un", "Idx") and calls:
                sink(f, n["c"][1], {"op"}, "operator written")
            if n["k"] == "Bin" and n["op"] in ("<", ">", "==", "!=", "<=", ">="):
                a, b = ks(f, n["c"][0]), ks(f, n["c"][1])
                if a and b and "?" not in a | b:
                    norm = lambda s_: {"p4" if x == "sp4" else x for x in s_}
                    rep.add(norm(a) == norm(b), "pauli-kind", "%s: comparison" % f.short, f.loc(i), "%s compares a %s with a %s" % (f.short, NAMES[sorted(a)[0]], NAMES[sorted(b)[0]]))
        # same-qubit operators do not commute: ordering by qubit must keep their order
        for i in sorts:
            n = f.N[i]
            lam = [prog.F.get(f.N[strip_(f, a)]["f"]) for a in n["a"] if f.N[strip_(f, a)]["k"] == "Lambda"]
            for g in lam:
                if g is None or len(g.params) != 2:
                    continue
                r = core.simple_return(g)
                if r is None:
                    continue
                b = g.N[strip_(g, r)]
                pk = {p["v"]: frozenset(["op"]) for p in g.params}
                if b["k"] == "Bin" and b["op"] in ("<", ">"):
                    kk = kind(g, b["c"][0], pk) | kind(g, b["c"][1], pk)
                    rep.add(kk == {"q"}, "pauli-kind", "%s: sort key" % f.short, g.loc(r), "%s orders operators by something other than their qubit" % f.short)
                    rep.add(n["fn"] == "std::stable_sort", "pauli-order", f.short, f.loc(i), "%s may exchange operators on the same qubit, which do not commute" % f.short)
        # order of factors
        for i in calls:
            n = f.N[i]
            if len(n["a"]) != 2:
                continue
            rs = [roots(f, a, defs, calls) for a in n["a"]]
            ps = [p["v"] for p in f.params]
            if len(ps) >= 2 and ps[0] in rs[0] | rs[1] and ps[1] in rs[0] | rs[1]:
                rep.add(rs[0] & set(ps[:2]) == {ps[0]} and rs[1] & set(ps[:2]) == {ps[1]}, "pauli-order", "%s: product" % f.short, f.loc(i), "%s multiplies the factors in the wrong order" % f.short)
            elif ("acc" in rs[0]) != ("acc" in rs[1]):
                rep.add("acc" in rs[0], "pauli-order", "%s: product" % f.short, f.loc(i), "%s multiplies the next operator from the left instead of the right" % f.short)


def strip_(f, i):
    while f.N[i]["k"] in ("Cast", "Paren") and f.N[i].get("c"):
        i = f.N[i]["c"][0]
    return i


def roots(f, nid, defs, calls):
    """parameters a value is computed from; 'acc' if it contains an earlier product"""
    out, todo, seen = set(), [nid], set()
    while todo:
        x = todo.pop()
        for y in f.walk(x):
            if y in calls:
                out.add("acc")
            n = f.N[y]
            if n["k"] == "Ref" and n.get("v"):
                v = n["v"]
                if n.get("dk") == "parm":
                    out.add(v)
                if v not in seen:
                    seen.add(v)
                    todo += [i for g, i in defs.get(v, ()) if g is f]
    return out


def pauli(prog, rep):
    pauli_kinds(prog, rep)
    # index 0 = I, 1..3 = X, Y, Z
    def mul(a, b):
        if a == 0 or b == 0:
            return a + b, 0
        if a == b:
            return 0, 0
        c = 6 - a - b
        return c, 1 if (a, b) in ((1, 2), (2, 3), (3, 1)) else 3
    def enc(a, b):
        c, ph = mul(a, b)
        return c if ph in (0, 1) else -c
    n = 0
    for name, dom in (("Moment::Pauli::(anon)::multiply_pauli", 3), ("Moment::Pauli::(anon)::multiply_pauli_with_id", 4)):
        for f in prog.find(name, need=False):
            for a, b in itertools.product(range(dom), repeat=2):
                want = enc(a + 1, b + 1) if dom == 3 else enc(a, b)
                try:
                    got = cp.call(prog, f, [a, b])
                except (cp.Unknown, cp.Thrown) as u:
                    continue
                n += 1
                rep.add(got == want, "pauli-table", "%s(%d,%d)" % (name, a, b), f.loc(), "%s(%d,%d) yields %s, must be %s" % (f.short, a, b, got, want))
    # phase of a product: the encoded sign decides which phase is multiplied in
    for f in prog.live():
        if not f.cfg or "/pauli/" not in f.rel:
            continue
        calls = [i for i in f.all_nodes() if f.N[i]["k"] == "Call" and f.N[i].get("fn", "").startswith("Moment::Pauli::(anon)::multiply_pauli")]
        if not calls:
            continue
        F = core.Facts(f)
        seen = {}
        for i in f.all_nodes():
            nn = f.N[i]
            if nn["k"] != "Call" or nn.get("fn") != "Moment::operator*":
                continue
            ph = [F.cn(a) for a in nn["a"]]
            ph = [p[1] for p in ph if p[0] == "enum" and p[1] in (SST + "Imaginary", SST + "NegativeImaginary")]
            if len(ph) != 1:
                continue
            st = F.at(i)
            if st is None:
                continue
            # the encoded product: the local holding the result of the table look-up
            vs = {v for v, g in core.varinfo(f).items() if any(c in set(f.walk(g.init)) for c in calls if g.init is not None)}
            for j in f.all_nodes():
                if f.N[j]["k"] == "Assign" and any(c in set(f.walk(f.N[j]["c"][1])) for c in calls):
                    r = core.lval_root(f, f.N[j]["c"][0])[0]
                    if r:
                        vs.add(r)
            def about(t):
                return any(isinstance(x, tuple) and (x[:1] == ("v",) and x[1] in vs or (x[0] == "call" and "multiply_pauli" in str(x[1])) or (x[0] == "idx" and x[1][0] == "g" and "cayley" in str(x[1][1]))) for x in core.subterms(t))
            pos = any(a[0] == "lt" and a[1] == ("int", 0) and t and about(a[2]) for a, t in st)
            neg = any(a[0] == "lt" and a[2] == ("int", 0) and t and about(a[1]) for a, t in st)
            want = SST + "Imaginary" if pos else SST + "NegativeImaginary" if neg else None
            seen[ph[0]] = True
            if want is None:
                rep.note("%s: branch of the product's sign not recognised" % f.loc(i))
                continue
            rep.add(ph[0] == want, "pauli-phase", "%s: %s" % (f.short, "positive" if pos else "negative"), f.loc(i),
                    "%s: a product encoded as %s is given the phase %s" % (f.short, "positive" if pos else "negative", ph[0][len(SST):]))
        absd = any(f.N[i]["k"] == "Call" and f.N[i].get("fn", "") in ("std::abs", "abs", "labs") for i in f.all_nodes())
        negs = {f.cfg.where[i][0] for i in f.all_nodes() if f.N[i]["k"] == "Un" and f.N[i]["op"] == "-" and i in f.cfg.where and about(F.cn(f.N[i]["c"][0]))} if seen else set()
        for b in f.cfg.b if seen and not absd else ():
            c = core.edge_cond(f, b)
            if c is None:
                continue
            for idx, x in enumerate(f.cfg.b[b]["s"]):
                if x is None:
                    continue
                ls = set()
                core.literals(F.cn(c), idx == 0, ls)
                if any(t and a[0] == "lt" and a[2] == ("int", 0) and about(a[1]) for a, t in ls):
                    todo, vis, esc = [x], set(), False
                    while todo:
                        y = todo.pop()
                        if y in vis or y in negs:
                            continue
                        vis.add(y)
                        if y == b or y == f.cfg.exit:
                            esc = True
                            break
                        todo += f.cfg.succ[y]
                    rep.add(not esc, "pauli-phase", "%s: magnitude" % f.short, f.loc(c), "%s uses a product encoded as negative without removing its sign" % f.short)
        for p in (SST + "Imaginary", SST + "NegativeImaginary"):
            if not any(f.N[i]["k"] == "Ref" and f.N[i].get("dk") == "enum" and f.N[i]["n"] == p for i in f.all_nodes()):
                rep.bad("pauli-phase", "%s: %s" % (f.short, p), f.loc(), "%s multiplies Pauli operators but never applies the phase %s" % (f.short, p[len(SST):]))
            else:
                rep.ok("pauli-phase", "%s: %s" % (f.short, p), f.loc())
    # single-site operators
    for k, L in enumerate("XYZ"):
        for f in prog.find("Moment::Pauli::PauliContext::sigma" + L, need=False):
            cn = core.Canon(f)
            q = f.params[0]["v"]
            for i in f.all_nodes():
                nn = f.N[i]
                if nn["k"] == "Ctor" and nn.get("cls", "").endswith("OperatorSequence") and len(nn.get("a", [])) >= 4:
                    t = cn(nn["a"][1])
                    vals = [eval_term(t, {q: x}) for x in range(8)]
                    if None in vals:
                        continue
                    rep.add(vals == [3 * x + k for x in range(8)], "pauli-names", "sigma" + L, f.loc(i), "sigma%s of qubit 0..7 is operator %s" % (L, vals))
                    h = [eval_term(cn(nn["a"][2]), {q: x}) for x in range(8)]
                    if None not in h:
                        rep.add(h == [3 * x + k + 2 for x in range(8)], "pauli-names", "sigma%s hash" % L, f.loc(i), "hash of sigma%s of qubit 0..7 is %s, shortlex rank is operator + 2" % (L, h))
                    s = cn(nn["a"][4]) if len(nn["a"]) > 4 else None
                    rep.add(s == ("v", f.params[1]["v"]), "pauli-names", "sigma%s sign" % L, f.loc(i), "sigma%s does not carry the sign it was given" % L)
    for f in prog.find("Moment::Pauli::PauliContext::format_raw_sequence", need=False):
        F = core.Facts(f)
        for i in f.all_nodes():
            lit = out_literal(f, i)
            if lit in ("X", "Y", "Z"):
                st = F.at(i) or frozenset()
                ks = [x[1] for a, t in st if t and a[0] == "eq" for x in a[1:] if x[0] == "int" and x[1] in (0, 1, 2)]
                if len(ks) == 1:
                    rep.add("XYZ"[ks[0]] == lit, "pauli-names", "printed letter %d" % ks[0], f.loc(i), "Pauli operator %d is printed as %s" % (ks[0], lit))
    # (anti)commutators vanish exactly when the product's reality says so
    for nm, eqv in (("commutator", True), ("anticommutator", False)):
        for f in prog.find("Moment::Pauli::PauliContext::" + nm, need=False):
            if not f.cfg:
                continue
            F = core.Facts(f)
            for i in f.all_nodes():
                nn = f.N[i]
                if nn["k"] == "Call" and nn.get("fn", "").endswith("set_to_zero"):
                    st = F.at(i)
                    if st is None:
                        continue
                    lits = {(t) for a, t in st if a[0] == "eq"}
                    if len(lits) != 1:
                        rep.note("%s: condition not recognised" % f.loc(i))
                        continue
                    rep.add(lits == {eqv}, "commutator", nm, f.loc(i), "%s is zero when product and factors are %s in reality" % (nm, "equal" if True in lits else "different"))
    if n < 25:
        raise ir.AnalysisBroken("Pauli multiplication table not found")


def out_literal(f, i):
    n = f.N[i]
    if n["k"] == "Call" and n.get("op") == "<<":
        args = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n.get("a", []))
        if len(args) == 2:
            x = args[1]
            while f.N[x]["k"] == "Cast":
                x = f.N[x]["c"][0]
            if f.N[x]["k"] == "Str":
                return f.N[x].get("val")
            if f.N[x]["k"] in ("Int", "Chr") and f.ty(x) == "char":
                return chr(int(f.N[x]["val"]))
    return None


def phase_fact(st):
    """phase known to hold, as index, and the term"""
    for a, t in st:
        if t and a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == "enum" and x[1] in ENUM:
                    return ENUM[x[1]], y
    return None


def branches(prog, rep):
    """what a branch on a phase emits or multiplies"""
    for f in prog.live():
        if not f.cfg:
            continue
        if not any(f.N[i]["k"] == "Ref" and f.N[i].get("dk") == "enum" and f.N[i]["n"] in ENUM for i in f.all_nodes()):
            continue
        F = core.Facts(f)
        emitted = {}
        for i in f.all_nodes():
            n = f.N[i]
            lit = out_literal(f, i)
            if lit is not None and re.fullmatch(r"[-+]?(i|1|I|1i|\*| )*", lit) and lit != "":
                st = F.at(i)
                if st is None:
                    continue
                pf = phase_fact(st)
                if pf is None:
                    continue
                p, term = pf
                emitted.setdefault(repr(term), {}).setdefault(p, []).append((lit, i))
            if n["k"] == "Call" and n.get("op") == "*=" and "complex" in (f.ty(n.get("o", -1)) if n.get("o", -1) >= 0 else f.ty(n["a"][0])):
                st = F.at(i)
                pf = phase_fact(st) if st else None
                if pf is None:
                    continue
                x = n["a"][-1]
                try:
                    v = complex(cp.Ev(prog, f, {}).ex(x))
                except Exception:
                    continue
                rep.add(v == complex(PH[pf[0]]), "phase-weight", "%s: %s" % (f.short, PH[pf[0]]), f.loc(i), "%s: a word with phase %s multiplies the weight by %s" % (f.short, PH[pf[0]], v))
        for term, d in emitted.items():
            for p, ls in d.items():
                txt = "".join(l for l, _ in ls)
                good = ("-" in txt) == (p >= 2) and ("i" in txt) == (p % 2 == 1)
                rep.add(good, "phase-text", "%s: %s" % (f.short, PH[p]), f.loc(ls[0][1]), "%s: phase %s is written as '%s'" % (f.short, PH[p], txt))


def switches(prog, rep):
    for f in prog.live():
        for i in f.all_nodes():
            n = f.N[i]
            if n["k"] != "Switch":
                continue
            ty = core.strip_cv(f.ty(n["cond"]))
            cases, default = [], None
            for x in f.walk(n["body"]):
                if f.N[x]["k"] == "Case":
                    # belongs to this switch: no nested switch in between
                    if nearest_switch(f, x) == i:
                        cases.append(x)
                elif f.N[x]["k"] == "Default" and nearest_switch(f, x) == i:
                    default = x
            e = prog.E.get(ty)
            if e:
                cn = core.Canon(f)
                have = set()
                for c in cases:
                    t = cn(f.N[c]["c"][0])
                    if t[0] == "enum":
                        have.add(t[1].rsplit("::", 1)[-1])
                miss = [x for x, _ in e["e"] if x not in have]
                rep.add(not miss or default is not None, "switch-total", "%s: %s" % (f.short, ty), f.loc(i),
                        "switch over %s in %s handles neither %s nor a default" % (ty, f.short, ", ".join(miss)))
            # fall-through
            body = n["body"]
            sts = f.kids(body) if f.N[body]["k"] == "Block" else [body]
            prev_real = None
            for s in sts:
                lab = f.N[s]["k"] in ("Case", "Default")
                if lab and prev_real is not None:
                    ft = not ends(f, prev_real)
                    rep.add(not ft, "no-fall-through", "%s: case before line" % f.short, f.loc(s), "in %s the case before this one runs on into it" % f.short)
                x = s
                while f.N[x]["k"] in ("Case", "Default"):
                    x = cp.sub(f, x)
                prev_real = x
    rep.floor("switch-total", 15)


def nearest_switch(f, x):
    p = f.parents().get(x)
    while p is not None:
        if f.N[p]["k"] == "Switch":
            return p
        p = f.parents().get(p)
    return None


def ends(f, s):
    """statement never completes normally into the next case"""
    n = f.N[s]
    k = n["k"]
    if k in ("Break", "Return", "Throw", "Continue", "Goto"):
        return True
    if k == "Cast" and f.kids(s):
        return ends(f, f.kids(s)[0])
    if k == "Block":
        ks = f.kids(s)
        return bool(ks) and (ends(f, ks[-1]) or any(ends(f, x) for x in ks))
    if k == "If":
        return n["else"] >= 0 and ends(f, n["then"]) and ends(f, n["else"])
    if k == "Attr":
        return True      # [[fallthrough]]
    if k == "Call" and n.get("noret"):
        return True
    return False


def check(prog, rep, tier):
    algebra(prog, rep)
    pauli(prog, rep)
    branches(prog, rep)
    switches(prog, rep)
    rep.floor("phase-algebra", 100)
    rep.floor("pauli-table", 20)
    rep.floor("phase-text", 12)
