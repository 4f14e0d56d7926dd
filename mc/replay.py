"""Replay one recorded violation without the explorer: python -m mc.replay FILE."""
import importlib
import json
import subprocess
import sys
import warnings

from . import core


def main():
    warnings.simplefilter("ignore")
    with open(sys.argv[1]) as fp:
        rec = json.load(fp)
    if rec["function"] == "explore":
        # Failed between cases
        return subprocess.call([sys.executable, "-m", "mc.main", rec["property"]])
    fn = getattr(importlib.import_module(rec["module"]), rec["function"])
    viol, _ = core.call_case(fn, rec["args"], 120)
    if viol is None:
        print("no violation: the recorded case passes on this tree")
        return 0
    print(f"VIOLATION property={rec['property']} replay={sys.argv[1]}")
    print(viol[1])
    return 1


if __name__ == "__main__":
    sys.exit(main())
