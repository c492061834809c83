"""Pure-numpy stand-in for the parts of scikit-learn (1.2) that convst uses."""
__version__ = "1.2.2"
from .base import clone   # noqa: F401
