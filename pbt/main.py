import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--procs", type=int)
    ap.add_argument("--spec", type=int, help="print the case with this number")
    a = ap.parse_args()
    from pbt import env

    try:
        env.load()
    except Exception:
        # A tree that cannot even be imported has no behaviour to judge
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR: the code under test cannot be imported")
        return 4
    from pbt import core, registry

    prop = registry.get(a.property)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.spec is not None:
        import json

        print(json.dumps(core.make_spec(prop, seed, a.spec)))
        return 0
    try:
        if a.replay:
            return core.main_replay(prop, a.replay)
        return core.main_check(prop, tier, seed, a.cases, a.procs)
    except core.HarnessError as e:
        print(e)
        return 3


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code) if code not in (0, 1, 3, 4) else sys.exit(code)
