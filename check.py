#!/usr/bin/env python3
"""check.py <property> quick|thorough : decides one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop)
        mod.run(ctx)
        rc = ctx.finish(level=getattr(mod, "LEVEL", "model_checking"))
    except vlib.Enough:
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        # violations of the real code that were established before stand on their own
        rc = ctx.finish() if ctx.violations else 2
        rc = rc or 2
    except Exception:
        traceback.print_exc()
        rc = (ctx.finish() if ctx.violations else 2) or 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


main()
