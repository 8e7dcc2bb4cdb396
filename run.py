#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough] | replay <file> | list"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

WHERE = {"bootstrap": ["C01", "C02", "C03", "C04"],
         "parallel": ["C05", "C06", "C07", "C08"],
         "threads": ["C09", "C10", "C11", "C12", "C13"],
         "faults": ["C14", "C15", "C16"],
         "history": ["C17", "C18"],
         "latent": ["C19"],
         "streams": ["C20", "C21", "C22"],
         "embed": ["C23", "C24"],
         "fresh": ["C25"],
         "growth": ["C26"],
         "hostile": ["C27"],
         "envs": ["C28"]}


def load(cid):
    from sim import boot
    boot.boot()
    for mod, ids in WHERE.items():
        if cid in ids:
            return importlib.import_module(f"checks.{mod}").CHECKS[cid]
    raise SystemExit(f"no check {cid}")


def main(argv):
    if argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        from sim import runner
        check = load(argv[1])
        print(f"seed {seed} property {argv[1]} tier {tier}", flush=True)
        return runner.run_check(check, tier, seed)
    if argv[0] == "replay":
        with open(argv[1]) as fh:
            doc = json.load(fh)
        from sim import runner
        return runner.replay(load(doc["property"]), doc)
    raise SystemExit(__doc__)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
