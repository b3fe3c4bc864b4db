"""Access to the code under test (always /repo's working tree)."""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
REPO = os.environ.get("PIP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(1000)

import ptypes            # noqa: E402
import scanning          # noqa: E402
import parsing           # noqa: E402
import execution         # noqa: E402
import errors            # noqa: E402
import version           # noqa: E402
import pip as pip_main   # noqa: E402

for _m in (ptypes, scanning, parsing, execution, errors, pip_main):
    assert os.path.dirname(os.path.abspath(_m.__file__)) == \
        os.path.abspath(REPO), _m.__file__
