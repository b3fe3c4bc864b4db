#!/usr/bin/env python3
"""replay.py FILE: re-run one recorded case, outside the explorer."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)


def main():
    rec = json.load(open(sys.argv[1], encoding="utf-8"))
    from mc import explore
    module = importlib.import_module(f"mc.props.{rec['property']}")
    for tier in ("quick", "thorough"):
        for sweep in module.sweeps(tier):
            if sweep.name == rec["sweep"]:
                case = explore.tuplify(rec["case"])
                what = explore.recheck(sweep, case)
                print(f"{rec['property']} {sweep.name} {case!r}")
                print(what or "holds")
                return 1 if what and what != "skip" else 0
    print("no such sweep")
    return 2


if __name__ == "__main__":
    sys.exit(main())
