#!/usr/bin/env python3
"""run.py <property id>: decide one property from the current sources of /repo."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir, report


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        here = os.path.dirname(os.path.abspath(__file__))
        mods = [m[:-3] for m in os.listdir(here) if m.startswith(pid.lower() + "_") and m.endswith(".py")]
        if not mods:
            raise ir.AnalysisBroken("no analysis for " + pid)
        mod = importlib.import_module(mods[0])
        prog = ir.load()
        rep = report.Report(pid, mod.RULE)
        rep.extra["module"] = mods[0] + ".py"
        mod.check(prog, rep, tier)
        rc = report.finish(rep, prog, t0, tier, seed, mod.LEVEL)
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % pid)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
