"""Facets, case evaluation, replay."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import prelude
from .prelude import REPO, VERIF


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The case cannot be decided here (an internal the facet looks at is
    gone, or a time bound was hit): counted as inconclusive, never a violation."""


class _Timeout(BaseException):
    pass


class _Spin(BaseException):
    """one case has used CPU_SECONDS of processor time: the code under test does not return"""


class LaneError(Exception):
    """An exception raised by the code under test in the worker process."""

    def __init__(self, kind, msg, mine, gap, where):
        super().__init__(msg)
        self.kind, self.mine, self.gap, self.where = kind, mine, gap, where


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", lane="cpython"):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.rule = rule


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.spin = False

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(names)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# No case comes near these (the evidence gives the largest). The wall-clock bound only leaves
# the case undecided; the processor-time bound, which a loaded machine does not shorten, is
# taken for an endless loop.
CASE_SECONDS = 400
CPU_SECONDS = 120


def _alarm(*a):
    raise _Timeout()


def _prof(*a):
    raise _Spin()


def run_case(facet, case):
    """-> (status, message, ctx); status ok | skip | violation | error."""
    ctx = Ctx()
    h = case_hash(case)
    prelude.reset_state(int(h[:7], 16))
    old = signal.signal(signal.SIGALRM, _alarm)
    oldp = signal.signal(signal.SIGPROF, _prof)
    signal.alarm(CASE_SECONDS)
    signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS)
    try:
        facet.check(case, ctx)
        return "ok", "", ctx
    except Skip as e:
        return "skip", str(e), ctx
    except _Timeout:
        return "skip", "case time bound", ctx
    except _Spin as e:
        ctx.spin = True
        where = [f for f in traceback.extract_tb(e.__traceback__)
                 if f.filename.startswith(REPO + os.sep)]
        if not where:
            return "skip", "case processor time bound", ctx
        return "violation", "no answer after %d s of processor time (in %s:%s)" % (
            CPU_SECONDS, os.path.relpath(where[-1].filename, REPO), where[-1].name), ctx
    except Violation as e:
        return "violation", "%s" % e, ctx
    except LaneError as e:
        ctx.spin = e.kind == "_Spin"
        if ctx.spin:
            return ("violation" if e.mine else "skip",
                    "no answer after %s of processor time (in %s)" % (e, e.where), ctx)
        if e.gap:
            return "skip", "not provided by a stand-in: %s" % str(e)[:120], ctx
        if not e.mine and e.kind in ("AttributeError", "KeyError", "ImportError", "TypeError"):
            return "skip", "internal layout: %s: %s" % (e.kind, str(e)[:120]), ctx
        return "violation", "unexpected %s: %s (in %s)" % (e.kind, str(e)[:300], e.where), ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        mine = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if _stand_in_gap(e):
            return "skip", "not provided by a stand-in: %s" % str(e)[:120], ctx
        if not mine and isinstance(e, (AttributeError, KeyError, ImportError, TypeError)):
            # the check looks at an internal that is not there (any more)
            return "skip", "internal layout: %s: %s" % (type(e).__name__, str(e)[:120]), ctx
        if not mine and isinstance(e, MemoryError):
            return "error", text, ctx
        last = (mine or tb)[-1]
        return "violation", "unexpected %s: %s (in %s:%s)" % (
            type(e).__name__, str(e)[:300], os.path.relpath(last.filename, REPO)
            if mine else os.path.basename(last.filename), last.name), ctx
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, oldp)
        prelude.numba._sched.mode = None


_SHIMS = ("sklearn", "numba", "joblib", "aeon", "matplotlib", "seaborn", "pandas")


def _stand_in_gap(e):
    if isinstance(e, ImportError):
        return (e.name or "").split(".")[0] in _SHIMS
    return isinstance(e, AttributeError) and any(
        "module '%s" % m in str(e) for m in _SHIMS)


def load(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("checks.%s" % pid.lower())


class _Stop(BaseException):
    pass


def _mutations(on, _keep=[]):
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as R
        if not _keep:
            _keep.append(R.generate_mutations_from)
        R.generate_mutations_from = _keep[0] if on else lambda self, data: None
    except (ImportError, AttributeError):
        pass        # another version of Hypothesis: only less variety


def run_facet(pid, facet, n, seed, deadline, shard=0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = {"facet": facet.name, "evaluations": 0, "skips": 0, "skip_reasons": {},
          "nontrivial": set(), "labels": {}, "samples": [], "violation": None,
          "error": None, "discards": 0, "max_cpu": 0.0}
    best = {}
    calls = [0]
    # Hypothesis starts from the simplest case, in every process: one of them decides it.
    # From the tenth case on it mostly varies earlier ones, which reaches coincidences; half
    # of the processes draw every case anew, which reaches more combinations.
    again = shard > 0
    _mutations(shard % 2 == 0)

    def body(case):
        now = time.time()
        calls[0] += 1
        if calls[0] == 1 and again:
            return
        if best and now - best["t0"] > 25:
            raise _Stop()
        if not best and now > deadline:
            st["stopped_on_budget"] = True
            raise _Stop()
        # cases must survive JSON, so that a replay is the same case
        case = json.loads(json.dumps(case))
        t0 = time.process_time()
        status, msg, ctx = run_case(facet, case)
        st["max_cpu"] = max(st["max_cpu"], time.process_time() - t0)
        if best and status != "violation":
            return          # shrinking: do not count
        if status == "error":
            st["error"] = msg + "\ncase: " + json.dumps(case)[:4000]
            raise _Stop()
        if not best:
            st["evaluations"] += 1
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if status == "skip":
                st["skips"] += 1
                st["skip_reasons"][msg] = st["skip_reasons"].get(msg, 0) + 1
            elif ctx.nontrivial:
                st["nontrivial"].add(case_hash(case))
                if len(st["samples"]) < 2 and st["evaluations"] % 7 == 3:
                    st["samples"].append(case)
        if status == "violation":
            size = len(json.dumps(case))
            if not best:
                best.update(t0=time.time(), size=size, case=case, msg=msg)
            elif size <= best["size"]:
                best.update(size=size, case=case, msg=msg)
            if ctx.spin:
                best["spin"] = True
                raise _Stop()       # too slow to shrink
            raise Violation(msg)

    test = given(facet.strategy())(body)
    test = settings(max_examples=n + again, deadline=None, database=None,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], print_blob=False)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except Exception:
        if not best:
            st["error"] = traceback.format_exc()
    if best:
        st["violation"] = {"case": best["case"], "msg": best["msg"]}
        st["violation"]["reproduced"] = bool(best.get("spin")) or \
            run_case(facet, best["case"])[0] == "violation"
    st["nontrivial"] = sorted(st["nontrivial"])
    return st
