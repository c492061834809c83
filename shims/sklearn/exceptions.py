class NotFittedError(ValueError, AttributeError):
    pass


class ConvergenceWarning(UserWarning):
    pass


class UndefinedMetricWarning(UserWarning):
    pass


class DataConversionWarning(UserWarning):
    pass


class FitFailedWarning(RuntimeWarning):
    pass
