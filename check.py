#!/usr/bin/env python3
"""Decides one property by running the real code under monitors.

  check.py C01 [quick|thorough]     VERIF_TIER and VERIF_SEED in the environment
  check.py replay FILE              run the recorded violation again
  check.py setup                    build everything beforehand

Exit 0: held on everything explored. 1: a VIOLATION line was printed. 2: no answer.
"""
import sys
sys.dont_write_bytecode = True
import json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run

if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "replay":
        sys.exit(run.replay(a[1]))
    if a[0] == "setup":
        sys.exit(run.setup())
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run.check(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
