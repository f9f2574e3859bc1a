#!/usr/bin/env python3
"""Checks of MeirBon/rtbvh against the TLA+ specification in spec/.

  run.py setup              build the harness once
  run.py check ID           the check of one property (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py replay FILE        run one recorded violation again
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import driver


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    try:
        if cmd == "setup":
            driver.build_harness()
            return 0
        if cmd == "check":
            return driver.check(sys.argv[2], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        if cmd == "replay":
            return driver.replay(sys.argv[2])
    except driver.ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
