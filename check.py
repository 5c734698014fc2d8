#!/opt/venv/bin/python
"""Entry point of every check: check.py <property id> [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[0:0] = [here, repo]
extra = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"  # Hypothesis; the project's own packages win
sys.path.append(extra)

if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:  # A run is a function of the code and VERIF_SEED
        os.environ["PYTHONHASHSEED"] = str(int(os.environ.get("VERIF_SEED", "1")) % 4294967295)
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]])
    from vlib import core

    sys.exit(core.main(f"checks.{sys.argv[1].lower()}", sys.argv[2:]))
