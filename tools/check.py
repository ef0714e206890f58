#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, vlib
import areas


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = core.Check(pid, tier)
    try:
        areas.CHECKS[pid](c)
    except vlib.CheckError as e:
        core.shutil.rmtree(c.tmp, ignore_errors=True)
        print("ERROR: the check could not be carried out: %s" % e, flush=True)
        if c.violations:
            return c.finish()
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
