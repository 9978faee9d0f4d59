"""setup: nothing to build; check that what the checks import is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402
import hypothesis  # noqa: E402

print("ctypeslib %s, hypothesis %s" % (env.ctypeslib.__version__, hypothesis.__version__))
