"""./check <ID>: decide one property.  See DESIGN.md; the plans of the properties are in plans*.py."""

import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import pipeline  # noqa: E402

PLANS = {}
for mod in ("plans_tree", "plans_more", "plans_values"):
    try:
        PLANS.update(importlib.import_module(mod).PLANS)
    except ModuleNotFoundError as exc:
        if exc.name != mod:
            raise


def main():
    if sys.argv[1] == "--replay":
        import replay

        return replay.main(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pipe = pipeline.Pipe(prop, tier, seed)
    try:
        return PLANS[prop](pipe)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check could not be completed")
        return 2
    finally:
        pipe.pool.shutdown(wait=False, cancel_futures=True)
        pipe.scratch.close()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
