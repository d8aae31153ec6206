"""Environment for the checks: where the code under test and the test library come from.

The code under test is imported from /repo's working tree (PP_REPO overrides the place,
for trying the checks on a scratch copy).  Hypothesis is not installed in the
environment that has pointpats' dependencies, so it is taken, and nothing but it and
what it needs, from the tooling environment (same Python version) by a finder.
"""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("PP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
TOOL_PACKAGES = ("hypothesis", "attr", "attrs", "sortedcontainers")


class _ToolFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is not None:
            return None
        if name in TOOL_PACKAGES or name.startswith("_hypothesis"):
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


class _Blocker(importlib.abc.MetaPathFinder):
    """Makes optional dependencies look as if they were not installed."""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r} (blocked)", name=name)
        return None


def setup_environment():
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ.setdefault(var, "1")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("JOBLIB_MULTIPROCESSING", "0")
    if "MPLCONFIGDIR" not in os.environ:
        d = os.path.join("/tmp", f"pp_verif_mpl_{os.getuid()}")
        os.makedirs(d, exist_ok=True)
        os.environ["MPLCONFIGDIR"] = d
    sys.dont_write_bytecode = True


def install(block=()):
    setup_environment()
    if not any(isinstance(f, _ToolFinder) for f in sys.meta_path):
        sys.meta_path.append(_ToolFinder())
    if block:
        if "sklearn" in block:  # libpysal itself cannot do without it
            sys.meta_path.insert(0, _Blocker(set(block) - {"sklearn"}))
            import libpysal  # noqa: F401

            for name in [n for n in sys.modules if n.split(".")[0] == "sklearn"]:
                del sys.modules[name]
        sys.meta_path.insert(0, _Blocker(block))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import pointpats

    where = os.path.dirname(os.path.dirname(os.path.abspath(pointpats.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError(f"pointpats was imported from {where}, not from {REPO}")
    return pointpats
