"""setup_cmd: nothing has to be built; make sure that what the checks need can be imported."""
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:0] = [here, os.environ.get("VERIF_REPO", "/repo")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hypothesis  # noqa: E402
import lazy_type_hint  # noqa: E402
import mypy.api  # noqa: E402, F401

from vlib import core, gen, ir, model  # noqa: E402, F401

print("hypothesis", hypothesis.__version__, "- code under test:", os.path.dirname(lazy_type_hint.__file__))
