#!/usr/bin/env python3
"""check.py Cxx: decides one property (VERIF_TIER, VERIF_SEED)."""
import json, os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import definitions, iochecks

CHECKS = {}
CHECKS.update(definitions.CHECKS)
CHECKS.update(iochecks.CHECKS)


def main():
    prop = sys.argv[1]
    if prop == "build":
        lib.Ctx("build", "other").build()
        return 0
    fn, level = CHECKS[prop]
    ctx = lib.Ctx(prop, level)
    try:
        ctx.build()
        return fn(ctx)
    except (lib.ToolError, subprocess.TimeoutExpired) as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
