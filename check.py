#!/usr/bin/env python3
"""check.py <property id>  - decide one property on /repo's working tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vlib

def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    ck = vlib.Check(prop)
    try:
        mod.run(ck)
        rc = ck.finish(getattr(mod, "ASSUMPTIONS", ()))
    except vlib.ToolError as e:
        import shutil
        shutil.rmtree(ck.work, ignore_errors=True)
        if ck.violations:      # a confirmed violation stands even if a later stage could not run
            for s, p in ck.violations:
                print("VIOLATION property=%s replay=%s" % (prop, p))
            print("(later stage failed: %s)" % str(e)[:500])
            sys.exit(1)
        print("ERROR: " + str(e))
        sys.exit(2)
    sys.exit(rc)

main()
