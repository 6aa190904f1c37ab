#!/usr/bin/env python3
"""Entry point of every check:  check.py <property> [quick|thorough]"""
import os, sys
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import engines


def main():
    prop = sys.argv[1]
    c = vf.Check(prop)
    c.also = engines.ATTR.get(prop, "").split()
    plan = engines.PLAN.get(prop)
    if not plan:
        print("no check for", prop)
        return 2
    try:
        for name, kw in plan:
            getattr(engines, name)(c, **kw)
        return c.finish(assumptions=engines.ASSUME.get(prop, []) + engines.ASSUME["*"])
    except vf.ToolError as e:
        print("TOOL ERROR:", e)
        vf.cleanup()
        return 3


sys.exit(main())
