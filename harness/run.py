"""Entry point: run.py <property> <tier> | run.py replay <file> | run.py list"""
import gc
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_DEV_REPO", "/repo"))
warnings.simplefilter("ignore")


def main() -> int:
    args = sys.argv[1:]
    import core

    if args[:1] == ["list"]:
        from registry import PROPERTIES

        for p in sorted(PROPERTIES):
            print(p, [f.name for f in PROPERTIES[p].facets])
        return 0
    if args[:1] == ["replay"]:
        import logging

        from registry import PROPERTIES

        logging.disable(logging.CRITICAL)
        core.arm()
        rec = json.load(open(args[1]))
        facet = next(f for f in PROPERTIES[rec["property"]].facets if f.name == rec["facet"])
        try:
            core.run_case(facet, rec["case"], core.Ctx())
        except (core.Violation, core.Stall) as e:
            print(f"VIOLATION property={rec['property']} replay={args[1]}")
            print(" ", e)
            return 1
        print("the replayed case holds")
        return 0
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from registry import PROPERTIES

    return core.run_property(PROPERTIES[pid], tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
