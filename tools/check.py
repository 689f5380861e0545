#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property for the current tree."""
import sys
from framework import *

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    import importlib
    fn = None
    for m in ("checks_lock", "checks_checked", "checks_sync", "checks_guard", "checks_mem", "checks_plat"):
        if os.path.exists(os.path.join(VERIF, "tools", m + ".py")):
            fn = fn or getattr(importlib.import_module(m), pid, None)
    if fn is None: print("unknown property " + pid); return 2
    ck = Check(pid, tier)
    try:
        extra = fn(ck)
        return ck.finish(extra)
    except CheckError as e:
        print("ERROR %s: %s" % (pid, e)); shutil.rmtree(ck.work, ignore_errors=True); return 3
    except Exception:
        traceback.print_exc(); shutil.rmtree(ck.work, ignore_errors=True); return 4

sys.exit(main())
