#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   or   check.py --setup   or   check.py --replay FILE PROPERTY CASE"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import kbuild as kb
import krun
from cases import CHECKS


def setup():
    import concurrent.futures as cf
    kb.build_engine()
    seen, jobs = set(), []
    with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(4) as outer:
        for p, c in CHECKS.items():
            for k in c["cases"]:
                key = (k.harness, tuple(k.groups), k.prelude, k.shims, k.defs)
                if key not in seen:
                    seen.add(key)
                    jobs.append(outer.submit(kb.build, k.harness, k.groups, k.prelude, k.shims, k.defs, pool))
        for j in jobs:
            j.result()
    kb.prune_cache()
    print("setup: %d programs built" % len(jobs))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    only = a[2].split(",") if len(a) > 2 else None
    cases = [k for k in c["cases"] if not only or k.name in only]
    return krun.main(prop, c["title"], cases, c["outside"], tier, seed)


sys.exit(main())
