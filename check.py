#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  |  check.py --setup"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vklib
def main():
    if sys.argv[1] == "--setup":
        vklib.engine(); print("engine ready"); return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    c = checks.CHECKS[prop]
    jobs = c["jobs"](tier)
    flt = os.environ.get("VK_ONLY")
    if flt: jobs = [j for j in jobs if flt in j.label]
    known = []
    for l in open(vklib.VERIF + "/known_findings.txt"):
        f = l.strip().split(" ", 3)
        if f[0] == "known:" and f[1] == "property=" + prop: known.append(f[3])
    return vklib.run_check(prop, jobs, tier, seed, bounds=c["bounds"](tier) if callable(c.get("bounds")) else c.get("bounds"), assumptions=c.get("assumptions", []), known=known)
sys.exit(main())
