#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
TABLE = {}
def load(pid):
    import importlib
    for m in ("kernels", "network", "training", "safety", "files"):
        try: mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m: continue
            raise
        if hasattr(mod, pid): return getattr(mod, pid)
    raise SystemExit("unknown property " + pid)
if __name__ == "__main__":
    try: rc = load(sys.argv[1])()
    except common.Anchor as e: print("error: %s" % e); rc = 2
    except common.build.BuildError as e: print("error: build failed: %s" % e); rc = 2
    except SystemExit: raise
    except BaseException: traceback.print_exc(); rc = 2
    sys.stdout.flush()
    common.build.cleanup()
    os._exit(rc)
