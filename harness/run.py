import argparse
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--smoke", action="store_true", help="only import everything")
    p.add_argument("--replay")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--only", help="comma separated names of checks")
    args = p.parse_args()
    try:
        from harness import boot
        boot.boot()
        from harness import core
        if args.smoke:
            import hypothesis
            import pyirf
            print(f"pyirf {pyirf.__file__}, hypothesis {hypothesis.__version__}")
            return 0
        module = importlib.import_module(f"props.{args.property.lower()}")
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    if args.only:
        module.SUBS = [s for s in module.SUBS if s.name in args.only.split(",")]
    if args.replay:
        return core.run_replay(args.property, module, args.replay)
    tier = "thorough" if args.tier == "thorough" else "quick"
    return core.run_property(args.property, module, tier, args.seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
