import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=None)
    a = ap.parse_args()
    from rv import boot, core
    boot.load()
    mod = importlib.import_module("rv.checks." + a.id.lower())
    ctx = core.Ctx(mod.ID, a.seed, a.tier)
    rc = core.run(mod, ctx, only=a.case, jobs=a.jobs)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
