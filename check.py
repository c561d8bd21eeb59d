#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree. See DESIGN.md."""
import os, sys, traceback
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":  # reference runs in this process have to agree with those in others
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core, ctx

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--build":
            b = core.build()
            print("driver:", b.bin)
            print("front ends:", *core.build_front())
            sys.exit(0)
        rc = ctx.run(sys.argv[1], set(sys.argv[2:]) or None)
    except core.CheckError as e:
        print("ERROR of the check (no verdict): %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)
