#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common

def main():
    prop = sys.argv[1]
    if prop == "setup":
        for kind in ("hook", "asan"):
            try: print(common.build(kind))
            except common.Inconclusive as e: print(e)
        return 0
    mod = importlib.import_module("props." + prop.lower())
    try:
        return mod.run(common.Check(prop))
    except common.Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print("ERROR property=%s" % prop); return 3

sys.exit(main())
