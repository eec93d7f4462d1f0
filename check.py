#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint import dump, run          # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from props import registry
    try:
        return registry.check(prop, tier)
    except dump.NoAnswer as e:
        print("NO-ANSWER %s: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
