class NumbaError(Exception):
    pass


class TypingError(NumbaError):
    pass


class NumbaWarning(Warning):
    pass


class NumbaPerformanceWarning(NumbaWarning):
    pass


class NumbaTypeError(TypingError):
    pass


class NumbaValueError(TypingError):
    pass


class NumbaDeprecationWarning(NumbaWarning, DeprecationWarning):
    pass


class NumbaPendingDeprecationWarning(NumbaWarning, PendingDeprecationWarning):
    pass
