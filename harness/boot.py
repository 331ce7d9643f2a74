"""Make hypothesis and the pyirf working tree importable.

* pyirf always comes from the current working tree in /repo (first on sys.path)
* hypothesis is not installed in the interpreter which has the dependencies of
  pyirf, it is taken from the pre-installed tooling venv (same python version).
  Only hypothesis and its pure python dependencies are taken from there.
"""
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = {
    "hypothesis",
    "_hypothesis_globals",
    "_hypothesis_ftz_detector",
    "_hypothesis_pytestplugin",
    "sortedcontainers",
    "attr",
    "attrs",
}


class _ToolsFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] in ALLOWED and path is None:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def boot():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.meta_path.append(_ToolsFinder)
    warnings.simplefilter("ignore")
    # never use the network (IERS tables), see astropy documentation
    from astropy.utils import iers
    iers.conf.auto_download = False
    import numpy as np
    np.seterr(all="ignore")
    import pyirf
    expected = os.path.realpath(os.path.join(REPO, "pyirf"))
    if os.path.realpath(os.path.dirname(pyirf.__file__)) != expected:
        raise ImportError(f"pyirf imported from {pyirf.__file__}, not from {expected}")
    import hypothesis  # noqa
