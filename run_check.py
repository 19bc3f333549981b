#!/opt/venv/bin/python
"""run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-X", "utf8", *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import rt  # noqa: E402

rt.bootstrap()

import importlib  # noqa: E402

if __name__ == "__main__":
    check = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(rt.main(check, sys.argv[2:]))
