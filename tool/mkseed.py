#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...] : development aid, writes seeded/ID/{patch.diff,demo.sh,meta.json}; demo.cpp is written by hand"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
def mk(i, prop, needs, breaks, edits, demo):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    out = ""
    for fn in sorted(set(e[0] for e in edits)):
        rel = "cpp/lib_moment/" + fn
        s = open("/repo/" + rel, newline="").read()
        t = s
        for f, old, new in edits:
            if f == fn:
                assert t.count(old) >= 1, (i, fn, old)
                assert t.count(old) == 1, ("ambiguous", i, fn, old)
                t = t.replace(old, new)
        with tempfile.TemporaryDirectory() as w:
            for side, txt in (("a", s), ("b", t)):
                p = os.path.join(w, side, rel)
                os.makedirs(os.path.dirname(p))
                open(p, "w", newline="").write(txt)
            r = subprocess.run(["diff", "-u", "a/" + rel, "b/" + rel], cwd=w, capture_output=True, text=True)
            lines = r.stdout.splitlines(True)
            out += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n" % (rel, rel, rel, rel) + "".join(lines[2:])
    open(d + "/patch.diff", "w", newline="").write(out)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
    shutil.copy(V + "/tool/demo_matrix.sh" if "// MATRIX" in (demo or "") else V + "/seeded/c09-party-outcome/demo.sh", d + "/demo.sh") if i != "c09-party-outcome" else None
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"))
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["S"]:
        if len(sys.argv) < 3 or s[0] in sys.argv[2:]:
            mk(*s)
            print(s[0])
