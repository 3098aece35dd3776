"""python run.py C01 [--tier quick|thorough] [--leg NAME]... [--scale F]
   python run.py --replay FILE
"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--leg", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from pv import env
    try:
        env.setup()
    except env.EnvError as e:
        print("ERROR: cannot build the code under test: %s" % e)
        return 2
    from pv import core
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        mod = importlib.import_module("pv.checks." + r["property"].lower())
        leg = [l for l in mod.LEGS if l.name == r["leg"]][0]
        try:
            leg.fn(core.dec(r["case"]))
        except BaseException as e:
            if not core.is_violation(e):
                raise
            import traceback
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (r["property"],
                                                       a.replay))
            return 1
        print("replay passes: property=%s leg=%s" % (r["property"], r["leg"]))
        return 0
    mod = importlib.import_module("pv.checks." + a.prop.lower())
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return core.main(a.prop, mod.LEGS, mod.RULE,
                     getattr(mod, "ASSUMPTIONS", []), a.tier, seed,
                     only=a.leg, scale=a.scale, workers=a.workers)


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
