#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree (see DESIGN.md)."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import vlib            # noqa: E402
import checks          # noqa: E402


def main():
    pid = sys.argv[1]
    fn = checks.CHECKS[pid]
    c = vlib.Check(pid)
    try:
        fn(c)
    except vlib.Enough:
        vlib.note("stopped at a violation")
    except vlib.Broken as e:
        traceback.print_exc()
        # what was established before the machinery broke still stands
        if c.fresh():
            return c.finish()
        print(f"BROKEN property={pid}: {e}")
        return 3
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
