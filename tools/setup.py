"""Nothing is built: this only confirms that the interpreter, symfem, sympy and z3 import."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
from lib import boot  # noqa: E402,F401

import sympy  # noqa: E402
import z3  # noqa: E402

import symfem  # noqa: E402

print("sympy", sympy.__version__, "z3", z3.get_version_string(), symfem.__file__)
