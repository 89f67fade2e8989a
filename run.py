#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from harness.index import HARNESS
    from symx.runner import run_check

    sys.exit(run_check(pid, HARNESS[pid], tier, seed))


if __name__ == "__main__":
    main()
