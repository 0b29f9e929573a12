#!/opt/venv/bin/python
"""run_check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import env  # noqa: E402,F401
from vlib import runner  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(runner.main(mod, sys.argv[2:]))
