"""Compile-time witnesses: static assertions over the library's own constexpr code, decided by the compiler's front end (no code is generated)."""
import os, re, subprocess, tempfile
import ir


def run(code, gcc=False):
    """(list of failed assertion messages, other error text or None)"""
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "witness.cpp")
        open(src, "w").write(code)
        if gcc:
            fl = []
            skip = False
            for x in ir.tu_flags():
                if skip or x.startswith("--gcc-install-dir"):
                    skip = False
                    continue
                if x == "-resource-dir":
                    skip = True
                    continue
                fl.append(x)
            cmd = ["g++"] + fl + ["-fsyntax-only", "-fconstexpr-ops-limit=500000000", src]
        else:
            cmd = ["clang++"] + ir.tu_flags() + ["-fsyntax-only", "-fconstexpr-steps=50000000", "-ferror-limit=0", src]
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode == 0:
        return [], None
    fails, other = [], []
    for l in r.stderr.splitlines():
        m = re.search(r"error: (.*)", l)
        if not m:
            continue
        t = m.group(1)
        q = re.search(r"static assertion failed[^:]*: (.*)", t)
        if q:
            fails.append(q.group(1).strip().strip('"'))
        else:
            other.append(t)
    return fails, ("; ".join(other[:3]) if other else None)


def obligations(rep, rule, key, loc, code, messages, text, gcc=False):
    """one obligation per static assertion message"""
    fails, other = run(code, gcc)
    if other:
        # not a constant expression any more, or the interface changed: the witness says nothing
        rep.note("%s: witness does not compile: %s" % (rule, other[:200]))
        if not fails:
            return
    for m in messages:
        if m in fails:
            rep.bad(rule, key + ": " + m, loc, text % m)
        elif not other:
            rep.ok(rule, key + ": " + m, loc)
