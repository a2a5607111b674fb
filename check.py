#!/opt/venv/bin/python
"""check.py <ID> [--replay FILE]  - run one property check."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env          # noqa: E402
env.setup()
from pbt import runner       # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("pbt.checks." + sys.argv[1].lower())
    rc = runner.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
