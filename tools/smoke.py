"""setup_cmd: nothing to build; verifies that the stand-ins import."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import prelude      # noqa: F401,E402
import convst.transformers  # noqa: F401,E402
import convst.classifiers   # noqa: F401,E402
print("ok")
