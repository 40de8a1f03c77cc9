#!/usr/bin/env python3
"""Writes MANIFEST.json from the analyses present in /verif/analysis and the reasons below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
REASON = {
 "C22": "which structures hold the same fact is not written in the types: no rule could be found that accepts every legitimate order of update; exact parts are decided under C02 (dictionary and maps), C15 (table and index) and C17 (restored on failure)",
 "C23": "row and column are a matter of naming for integer indices, so a static rule would judge how code is written; exact parts are decided under C05 (every element filled, transposed triangles), C06 (conjugated occurrences) and C09 (bounds)",
 "C30": "value-level: whether an element equals the simplified product of generators quantifies over words and rewriting results, no sound static argument over the source bounds it; the structural parts are decided under C06, C07, C23",
 "C31": "confluence and termination of user-supplied rule sets is undecidable in general and not a property of the source text alone",
 "C32": "injectivity of an arithmetic hash over all words is an arithmetic theorem about runtime values, outside dataflow/type-level reach (a solver or proof assistant would be a different family)",
 "C33": "numerical property of linear maps over all groups; runtime quantities",
 "C34": "arithmetic identity over all scenarios and assignments; runtime quantities (index bounds and sentinel handling are decided under C09 and C10)",
 "C35": "bijectivity of index arithmetic for all sizes needs arithmetic reasoning about products of runtime sizes; bounds checks and loop progress are decided under C09 and C20",
 "C36": "semantic equality modulo rules quantifies over assignments; runtime quantities",
 "C37": "graph decomposition result over all causal networks; runtime quantities",
 "C38": "orbit canonicalisation over all words; runtime quantities",
}
NOTE = {}
def main():
    import importlib
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    mods = {m[:3].upper(): m[:-3] for m in os.listdir(os.path.join(V, "analysis")) if re.match(r"c\d\d_.*\.py$", m)}
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in mods:
            m = importlib.import_module(mods[i])
            cmd = "python3 analysis/run.py " + i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": getattr(m, "TECHNIQUE", m.RULE)[:200],
                           "level": m.LEVEL, "level_note": getattr(m, "NOTE", "every instance of the rule in the current sources of cpp/lib_moment is enumerated and judged; trusts the clang front end, the extractor and the rule itself; aliasing through untracked pointers is assumed away as described in DESIGN.md"),
                           "evidence_file": "evidence/%s.json" % i})
        else:
            na.append({"property": i, "reason": REASON.get(i, "no exact static rule could be built for it; see DESIGN.md")})
    out = {"version": 1, "setup_cmd": "python3 analysis/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks read the sources under /repo/cpp/lib_moment through a libTooling extractor (tool/mir.cpp, built by setup or on first use); nothing of the repository is executed."}
    json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")
main()
