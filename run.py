#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    fn = registry.find(prop)
    c = core.Check(prop, tier)
    try:
        fn(c)
        return c.finish()
    except core.ToolError as x:
        sys.stderr.write("ERROR: %s\n" % x)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == "__main__":
    sys.exit(main())
