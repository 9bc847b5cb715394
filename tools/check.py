#!/usr/bin/env python3
"""check.py <property> : decides one property; tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vlib.Check(pid, tier, seed)
    try:
        vlib.build_classes()
        checks.CHECKS[pid](c)
        return c.finish()
    except vlib.ToolError as e:
        print("ERROR in check %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
