"""Import paths: the code under test from /repo/src, Hypothesis from the
pre-installed tool environment (same Python 3.12; appended last so that numpy,
scipy, ... come from the environment the repository was built with)."""

import logging
import os
import sys
import warnings

REPO = os.environ.get("PBT_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _add_tools():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(TOOLS)
        import hypothesis  # noqa: F401


_add_tools()
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

# Dependencies may come from their byte-code caches, the code under test may not.
for _name in ("numpy", "scipy.stats", "scipy.interpolate", "scipy.optimize", "numba", "pandas", "matplotlib.pyplot", "xarray", "pykooh", "pyrvt"):
    try:
        __import__(_name)
    except ImportError:
        pass
sys.pycache_prefix = os.path.join(os.environ.get("PBT_SCRATCH", "/nonexistent"), "pyc")

import pystrata  # noqa: E402

assert os.path.realpath(pystrata.__file__).startswith(
    os.path.realpath(os.path.join(REPO, "src"))
), pystrata.__file__
