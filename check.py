#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER override)"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.environ["VERIF_PID"] = pid
    from vlib import plans, run
    try:
        c = plans.start(pid, tier, seed)
        plans.PLANS[pid][0](c)
        rc = c.finish()
    except run.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if os.environ.get("VERIF_KEEP") != "1":
        import shutil
        shutil.rmtree(os.path.join(run.VERIF, "build", pid), ignore_errors=True) if rc != 1 else None
    sys.exit(rc)


main()
