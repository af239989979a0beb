"""Nothing to build ahead: the checks compile /repo's current sources themselves.  Checks that the tools are there."""
import shutil
import sys

import z3

missing = [t for t in ("clang++", "opt", "g++", "c++filt") if shutil.which(t) is None]
if missing:
    # opt may carry a version suffix; common.py looks for it
    missing = [t for t in missing if shutil.which(t + "-18") is None]
print("z3", z3.get_version_string(), "missing:", missing)
sys.exit(1 if missing else 0)
