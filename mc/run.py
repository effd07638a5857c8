#!/usr/bin/env python3
"""python3 mc/run.py Pnn   (VERIF_TIER=quick|thorough)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    mod = importlib.import_module(prop.lower())
    r = common.Report(prop, getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", ()))
    try:
        common.build_driver()
        mod.check(r)
    except common.CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        # violations found before the error stand; otherwise this is no verdict
        return 1 if r.viol else 2
    except Exception:
        traceback.print_exc()
        return 1 if r.viol else 2
    return r.finish()


sys.exit(main())
