#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if (os.path.exists(PY) and os.path.realpath(sys.prefix) !=
        os.path.realpath("/opt/venv") and not os.environ.get("VERIF_PY")):
    os.environ["VERIF_PY"] = "1"
    os.execv(PY, [PY] + sys.argv)
# Same hashes (set order) in every run
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from mc import explore
    try:
        module = importlib.import_module(f"mc.props.{prop}")
    except Exception as e:
        # /repo cannot even be imported: nothing holds
        import traceback
        traceback.print_exc()
        path = explore.write_replay(prop, "import", [], repr(e))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return explore.check(prop, module, tier)


if __name__ == "__main__":
    sys.exit(main())
