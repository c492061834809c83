from .fixes import delayed   # noqa: F401
from joblib import Parallel  # noqa: F401
