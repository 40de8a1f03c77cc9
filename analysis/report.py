"""Obligations, verdicts, evidence files and known findings."""
import json, os, sys, time
import ir

KNOWN = os.path.join(ir.VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obl = []            # (rule, key, loc, ok, text)
        self.notes = []
        self.floors = []
        self.trusted = []
        self.assume = []
        self.extra = {}

    def ok(self, rule, key, loc, text=""):
        self.obl.append((rule, key, loc, True, text))

    def bad(self, rule, key, loc, text):
        self.obl.append((rule, key, loc, False, text))

    def add(self, good, rule, key, loc, text=""):
        self.obl.append((rule, key, loc, bool(good), text))

    def note(self, *s):
        self.notes.append(": ".join(str(x) for x in s if x != ""))

    def floor(self, rule, n):
        """confirmed-by-hand minimum number of instances of a rule (checked at the end)"""
        self.floors.append((rule, n))

    def count(self, rule):
        return sum(1 for o in self.obl if o[0] == rule)


def known_for(pid):
    if not os.path.exists(KNOWN):
        return []
    d = json.load(open(KNOWN))
    return [k for k in d.get("known", []) if k["property"] == pid]


def finish(rep, prog, t0, tier, seed, level):
    per = {}
    for r, k, l, ok, t in rep.obl:
        c = per.setdefault(r, [0, 0])
        c[0] += 1
        c[1] += 1 if ok else 0
    for r, n in rep.floors:
        have = per.get(r, [0, 0])[0]
        if have < n:
            raise ir.AnalysisBroken("%s: rule '%s' has %d instances, fewer than the %d confirmed by hand" % (rep.pid, r, have, n))
    if not rep.obl:
        raise ir.AnalysisBroken(rep.pid + ": no obligations")
    known = known_for(rep.pid)
    seen_known = []
    viol = []
    dedup = set()
    for r, k, l, ok, t in rep.obl:
        if ok:
            continue
        hit = next((x for x in known if x["rule"] == r and x["key"] == k), None)
        if hit:
            if hit not in seen_known:
                seen_known.append(hit)
            continue
        if (r, k, l) in dedup:
            continue
        dedup.add((r, k, l))
        viol.append((r, k, l, t))
    ev = os.environ.get("MOMENT_EVIDENCE") or os.path.join(ir.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    print("%s: %s" % (rep.pid, rep.rule))
    print("analysed: %d translation units, %d functions, %.1fs to load" % (len(prog.units), len(prog.live()), prog.load_s))
    for r in sorted(per):
        print("  rule %-28s obligations %5d  discharged %5d" % (r, per[r][0], per[r][1]))
    for n in rep.notes[:40]:
        print("  note: " + n)
    for x in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, x["what"]))
    rp = os.path.join(ev, "%s.violations.txt" % rep.pid)
    if os.path.exists(rp):
        os.unlink(rp)
    if viol:
        with open(rp, "w") as f:
            for r, k, l, t in viol:
                f.write("%s [%s] %s\n    %s\n" % (l, r, k, t))
    tot = len(rep.obl)
    dis = sum(1 for o in rep.obl if o[3])
    step = max(1, tot // 12)
    samples = ["%s [%s] %s %s" % (o[2], o[0], o[1], "discharged" if o[3] else "NOT discharged: " + o[4]) for o in rep.obl[::step][:12]]
    cov = {"obligations": tot, "discharged": dis,
           "checker_cmd": "python3 /verif/analysis/run.py %s" % rep.pid,
           "trusted_base": ["clang 18 front end and CFG (libTooling)", "the extractor tool/mir.cpp", "the rules in analysis/%s" % rep.extra.get("module", "")] + rep.trusted,
           "explanation": rep.rule,
           "per_rule": {r: {"obligations": a, "discharged": b} for r, (a, b) in sorted(per.items())},
           "units": len(prog.units), "functions": len(prog.live()),
           "known_findings": [x["what"] for x in seen_known],
           "samples": samples}
    for k, v in rep.extra.items():
        if k != "module":
            cov[k] = v
    out = {"property": rep.pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": rep.assume, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ev, rep.pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    if viol:
        for r, k, l, t in viol[:30]:
            print("  %s: [%s] %s: %s" % (l, r, k, t))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    print("%s: held on everything analysed (%d obligations)" % (rep.pid, tot))
    return 0
