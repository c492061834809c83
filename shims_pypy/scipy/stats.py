from collections import namedtuple
import numpy as np
import scipy

WilcoxonResult = namedtuple("WilcoxonResult", ("statistic", "pvalue"))
FriedmanchisquareResult = namedtuple("FriedmanchisquareResult", ("statistic", "pvalue"))


def wilcoxon(x, y=None, zero_method="wilcox", correction=False, alternative="two-sided",
             **kw):
    args = [np.asarray(x, dtype=float).tolist()]
    if y is not None:
        args.append(np.asarray(y, dtype=float).tolist())
    return WilcoxonResult(*scipy._rpc("wilcoxon", args, dict(
        kw, zero_method=zero_method, correction=correction, alternative=alternative)))


def friedmanchisquare(*samples):
    return FriedmanchisquareResult(*scipy._rpc(
        "friedmanchisquare", [np.asarray(s, dtype=float).tolist() for s in samples], {}))
