#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay file]; check.py --setup builds everything."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, vbuild
from props import PROPS

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup":
        from concurrent.futures import ThreadPoolExecutor
        todo = sorted({(p.harness, p.variant, tuple(p.extra)) for q in PROPS.values() for p in q["parts"]})
        for v in sorted({t[1] for t in todo}):
            vbuild.library(v)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda t: vbuild.harness(*t), todo))
        print("built %d harnesses" % len(todo))
        sys.exit(0)
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in a:
        sys.exit(runner.replay(a[0], PROPS[a[0]], a[a.index("--replay") + 1]))
    sys.exit(runner.decide(a[0], PROPS[a[0]], tier, seed))
