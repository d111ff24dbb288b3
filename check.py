#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: explores one property against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import props, driver, build

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    p = props.PROPS[pid]
    run = driver.Run(pid, tier)
    try: p["run"](run)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e)); return 3
    return run.finish(p["level"], p["rule"], p["assume"], exhaustive=p.get("exhaustive", True))

if __name__ == "__main__":
    sys.exit(main())
