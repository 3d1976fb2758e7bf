#!/usr/bin/env python3
"""Usage: run.py setup
       run.py check <property> [thorough]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp
import checks
import smallscope
import smallvals


def setup():
    """Parses the specification and warms the build of the harness (a check builds what it needs itself)."""
    bad = vp.sany()
    if bad:
        print(bad)
        return 1
    run = vp.Run("setup")
    import catalogue
    try:
        run.build(catalogue.build())
    except vp.CheckError as e:
        print("note:", e)
    return 0


def main():
    if sys.argv[1:] == ["setup"]:
        return setup()
    if len(sys.argv) < 3 or sys.argv[1] != "check" or sys.argv[2] not in checks.CHECKS:
        print(__doc__, "\nproperties:", " ".join(sorted(checks.CHECKS)))
        return 2
    if len(sys.argv) > 3:
        os.environ["VERIF_TIER"] = sys.argv[3]
    run = vp.Run(sys.argv[2])
    try:
        checks.CHECKS[sys.argv[2]](run)
        if sys.argv[2] in smallscope.BOUNDS:
            smallscope.settle(run, checks.roots(run.cat))
        if sys.argv[2] in smallvals.BUDGETS:
            smallvals.settle(run, checks.ser_roots(run.cat))
    except vp.CheckError as e:
        print("CHECK ERROR: %s" % e)
        if not run.violations:
            return 2
    return run.finish()


sys.exit(main())
