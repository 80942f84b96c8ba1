#!/usr/bin/env python3
"""check.py ID -- decides one property on the current /repo tree."""
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
import vp      # noqa: E402
import checks  # noqa: E402

if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:] or sorted(vp.REGISTRY):
        if pid not in vp.REGISTRY:
            print("unknown property", pid)
            sys.exit(2)
        r = vp.run(pid)
        rc = max(rc, r)
    sys.exit(rc)
