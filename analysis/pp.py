"""Readable rendering of nodes (reports, debugging)."""

def short(q):
    for p in ("Moment::",):
        if q.startswith(p):
            q = q[len(p):]
    return q

def ex(f, i, d=0):
    if i is None or i < 0:
        return ""
    if d > 12:
        return "..."
    n = f.N[i]
    k = n["k"]
    c = n.get("c", [])
    r = lambda x: ex(f, x, d + 1)
    if k == "Ref":
        return n.get("n") or n.get("fn", "?").split("::")[-1]
    if k == "Mem":
        b = r(c[0]) if c else ""
        return (b + ("->" if n.get("arrow") else ".") + n["n"]) if b != "this" else "this->" + n["n"]
    if k == "This":
        return "this"
    if k == "Call":
        a = ", ".join(r(x) for x in n.get("a", []))
        op = n.get("op")
        if op:
            if "o" in n:
                o = r(n["o"])
                if op == "[]":
                    return "%s[%s]" % (o, a)
                if op == "()":
                    return "%s(%s)" % (o, a)
                if not a:
                    return "%s%s" % (op, o)
                return "(%s %s %s)" % (o, op, a)
            args = [r(x) for x in n.get("a", [])]
            if len(args) == 2:
                return "(%s %s %s)" % (args[0], op, args[1])
            return op + ",".join(args)
        nm = n.get("fn", "").split("::")[-1] if n.get("fn") else r(n.get("ce"))
        if "o" in n and n["o"] >= 0:
            o = r(n["o"])
            return "%s%s%s(%s)" % (o, "->" if n.get("arrow") else ".", nm, a)
        if n.get("fn") and n["fn"].count("::") and not n["fn"].startswith("std::"):
            nm = short(n["fn"])
        elif n.get("fn"):
            nm = n["fn"]
        return "%s(%s)" % (nm, a)
    if k == "Ctor":
        return "%s{%s}" % (n["cls"].split("::")[-1], ", ".join(r(x) for x in n.get("a", [])))
    if k in ("Bin", "Assign"):
        return "(%s %s %s)" % (r(c[0]), n["op"], r(c[1]))
    if k == "Un":
        return r(c[0]) + n["op"] if n.get("post") else n["op"] + r(c[0])
    if k in ("Int", "Flt"):
        return n["val"]
    if k == "Bool":
        return "true" if n["val"] else "false"
    if k == "Str":
        return '"%s"' % n.get("val", "")[:30]
    if k == "Null":
        return "nullptr"
    if k == "Cast":
        return "(%s)%s" % (f.ty(i), r(c[0]))
    if k == "Sub":
        return "%s[%s]" % (r(c[0]), r(c[1]))
    if k == "Cond":
        return "(%s ? %s : %s)" % tuple(r(x) for x in c)
    if k == "Throw":
        return "throw " + (r(c[0]) if c else "")
    if k == "Return":
        return "return " + (r(c[0]) if c else "")
    if k == "DefArg":
        return "<default %s>" % n.get("pn")
    if k == "Decl":
        return "; ".join("%s %s = %s" % (f.T[v["t"]], v["n"], r(v.get("i"))) for v in n["vars"])
    if k == "Lambda":
        return "[lambda]"
    if k == "AutoDtor":
        return "~" + n["v"]
    return "%s(%s)" % (k, ", ".join(r(x) for x in c))
