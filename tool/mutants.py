#!/usr/bin/env python3
"""Development aid: run checks against small edits of a scratch copy of the sources (never against /repo itself).
   mutants.py FILE [ID ...]    FILE defines M = [(id, property, file under cpp/lib_moment, old, new), ...]; property '-' means: must stay quiet"""
from concurrent.futures import ThreadPoolExecutor
import os, subprocess, sys, shutil, re
W = os.environ.get("MR", "/tmp/mr")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sync():
    os.makedirs(W + "/cpp", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/cpp/lib_moment", "/repo/cpp/eigen", W + "/cpp/"], check=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    allp = sorted(m[:3].upper() for m in os.listdir(VERIF + "/analysis") if re.match(r"c\d\d_", m))
    env = dict(os.environ, MOMENT_REPO=W, MOMENT_TUCACHE="/tmp/tucache", MOMENT_EVIDENCE=W + "-ev")
    for mid, prop, edits in ns["M"]:
        if want and mid not in want and prop not in want:
            continue
        sync()
        bad = False
        for fn, old, new in edits:
            p = W + "/cpp/lib_moment/" + fn
            s = open(p).read()
            if s.count(old) < 1:
                print("%-30s EDIT DOES NOT APPLY: %r in %s" % (mid, old[:50], fn))
                bad = True
                break
            open(p, "w").write(s.replace(old, new, 1))
        if bad:
            continue
        props = allp if prop == "-" else prop.split(",")
        go = lambda pr: (pr, subprocess.run([sys.executable, VERIF + "/analysis/run.py", pr], env=env, capture_output=True, text=True))
        done = [go(props[0])]       # fills the cache of extracted units
        with ThreadPoolExecutor(6) as ex:
            done += list(ex.map(go, props[1:]))
        for pr, r in done:
            v = [l for l in r.stdout.splitlines() if l.startswith("  cpp/")]
            if prop == "-":
                if r.returncode != 0:
                    print("%-30s %s FALSE ALARM rc=%d %s" % (mid, pr, r.returncode, v[:2] or r.stdout[-300:]))
            else:
                print("%-30s %s %s %s" % (mid, pr, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, (v[:1] or [r.stdout[-200:] if r.returncode > 1 else ""])[0][:220]))
        if prop == "-":
            print("%-30s quiet run done" % mid)
        sys.stdout.flush()
    sync()


main()
