#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mv import build, core, registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = core.Check(prop, tier)
    try:
        registry.CHECKS[prop](chk)
    except build.BuildError as e:
        print("build failed:\n%s" % str(e)[-2000:])
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
