#!/usr/bin/env python3
"""check.py <property> : run the check of one property. Exit 0 held, 1 violated, 2 the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module("c_" + prop.lower())
        import harness
        c = harness.Check(prop)
        mod.run(c)
        return c.finish(rule=getattr(mod, "RULE", ""))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
sys.exit(main())
