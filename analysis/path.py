"""Path questions on a function's control flow graph, at the granularity of single evaluated nodes."""


def _pos(f, i):
    """position of a node in the control flow graph; a node that is no element of its own belongs to the next enclosing one"""
    if not f.cfg:
        return None
    par = f.parents()
    w = f.cfg.where
    while i is not None and i not in w:
        i = par.get(i)
    return w.get(i)


def _events(f, nodes):
    ev = {}
    for x in nodes:
        p = _pos(f, x)
        if p is not None:
            ev.setdefault(p[0], []).append(p[1])
    return ev


def before(f, i, events, edge_ok=None, start=None):
    """every path from the entry (or from node `start`) to node i passes an event first"""
    ev = _events(f, events)
    w = _pos(f, i)
    if w is None:
        return True
    b0, k0 = w
    if any(k < k0 for k in ev.get(b0, ())):
        return True
    s = _pos(f, start) if start is not None else None
    if s is not None and s[0] == b0 and s[1] < k0:
        return False
    if b0 == f.cfg.entry:
        return False
    st, seen = [(p, b0) for p in f.cfg.pred[b0]], set()
    while st:
        x, y = st.pop()
        if edge_ok is not None and not edge_ok(x, y):
            continue
        if x in seen or x in ev:
            if x in ev and s is not None and x == s[0] and not any(k > s[1] for k in ev[x]):
                return False
            continue
        seen.add(x)
        if x == f.cfg.entry or (s is not None and x == s[0]):
            return False
        st.extend((p, x) for p in f.cfg.pred[x])
    return True


def after(f, i, events, edge_ok=None, until=None):
    """every path from node i to a normal exit (or to a node in `until`) passes an event; returns False with a path that does not"""
    ev = _events(f, events)
    un = _events(f, until or ())
    w = _pos(f, i)
    if w is None:
        return True
    b0, k0 = w

    def first(b, k):
        e = [(q, 0) for q in ev.get(b, ()) if q > k] + [(q, 1) for q in un.get(b, ()) if q > k]
        return min(e)[1] if e else None
    r = first(b0, k0)
    if r is not None:
        return r == 0
    st, seen = [(b0, s) for s in f.cfg.succ[b0]], set()
    while st:
        p, x = st.pop()
        if edge_ok is not None and not edge_ok(p, x):
            continue
        if x in seen:
            continue
        seen.add(x)
        r = first(x, -1)
        if r == 0:
            continue
        if r == 1 or x == f.cfg.exit:
            return False
        st.extend((x, s) for s in f.cfg.succ[x])
    return True


def edge_after(f, p, x, events, edge_ok=None, until=None):
    """every path starting with the edge p -> x to a normal exit passes an event"""
    ev = _events(f, events)
    un = _events(f, until or ())

    def first(b):
        e = [(q, 0) for q in ev.get(b, ())] + [(q, 1) for q in un.get(b, ())]
        return min(e)[1] if e else None
    st, seen = [x], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        r = first(x)
        if r == 0:
            continue
        if r == 1 or x == f.cfg.exit:
            return False
        for s in f.cfg.succ[x]:
            if edge_ok is None or edge_ok(x, s):
                st.append(s)
    return True


def reach(f, i, j, avoid=(), edge_ok=None):
    """can control flow from just after node i to node j without passing a node in avoid"""
    ev = _events(f, avoid)
    wi, wj = _pos(f, i), _pos(f, j)
    if wi is None or wj is None:
        return False
    if wi[0] == wj[0] and wi[1] < wj[1]:
        if not any(wi[1] < k < wj[1] for k in ev.get(wi[0], ())):
            return True
    if any(k > wi[1] for k in ev.get(wi[0], ())):
        return False
    st, seen = [x for x in f.cfg.succ[wi[0]] if edge_ok is None or edge_ok(wi[0], x)], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == wj[0] and not any(k < wj[1] for k in ev.get(x, ())):
            return True
        if x in ev:
            continue
        st.extend(y for y in f.cfg.succ[x] if edge_ok is None or edge_ok(x, y))
    return False


def escape(f, events, edge_ok=None):
    """is there a path from the entry to a normal exit that passes no event"""
    if not f.cfg:
        return True                 # a pattern without a body of its own: nothing is known
    ev = _events(f, events)
    st, seen = [f.cfg.entry], set()
    while st:
        x = st.pop()
        if x in seen or x in ev:
            continue
        seen.add(x)
        if x == f.cfg.exit:
            return True
        for s in f.cfg.succ[x]:
            if edge_ok is None or edge_ok(x, s):
                st.append(s)
    return False
