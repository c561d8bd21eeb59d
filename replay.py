#!/usr/bin/env python3
"""replay.py FILE: run one recorded violation again on /repo's working tree (exit 1 if it fails again)."""
import json, os, sys
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":  # reference runs in this process have to agree with those in others
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core, ctx

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    try:
        sys.exit(ctx.run(d["property"], {d["case"]}))
    except core.CheckError as e:
        print("ERROR of the check (no verdict): %s" % e, file=sys.stderr)
        sys.exit(2)
