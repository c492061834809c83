from . import errors   # noqa: F401
from .. import types   # noqa: F401
