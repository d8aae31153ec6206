"""python run.py <property id> [--replay FILE | --only check,check]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
from pbt import boot  # noqa: E402


def main():
    prop = sys.argv[1]
    if prop == "--setup":  # nothing to build: only see that the code under test imports
        boot.install()
        print("pointpats imports from", boot.REPO)
        return
    from pbt import core

    boot.install()

    core.CURRENT["module"] = f"checks.{prop}"
    module = importlib.import_module(f"checks.{prop}")
    # flush before leaving without running interpreter-exit hooks of native libraries
    code = core.main(prop, module.__doc__, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
