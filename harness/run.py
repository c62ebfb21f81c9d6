#!/usr/bin/env python3
"""run.py <property> [quick|thorough]      run a check
run.py <property> --replay <file>        replay a recorded failure"""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    for s in (sys.stdout, sys.stderr):
        s.reconfigure(encoding="utf-8", errors="backslashreplace")
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    from vp import engine, build
    check = importlib.import_module("checks." + pid.lower()).CHECK
    try:
        if "--replay" in sys.argv:
            return engine.replay(check, sys.argv[sys.argv.index("--replay") + 1])
        return engine.run(check, tier, seed)
    except build.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
