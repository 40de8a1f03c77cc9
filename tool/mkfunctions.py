#!/usr/bin/env python3
"""writes analysis/tables/functions.txt: the functions of the library, so that checks can tell a helper taken out of them later (core.newly)"""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analysis")
import ir
p = ir.load(verbose=False)
open(V + "/analysis/tables/functions.txt", "w").write("\n".join(sorted({re.sub(r"<.*>", "", f.short) for f in p.live()})) + "\n")
