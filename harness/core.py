"""Monitor: the object through which every oracle of this framework observes an execution.

A scenario is a function f(rng, mon, size) that drives the real code of /repo and reports what it observes to the
monitor.  Every call of `check`/`close` is one oracle evaluation; `event` counts things the monitor saw happen (steps,
solves, columns ...); `case` records the signature of the case, so that the evidence can say how many different,
non-trivial cases were observed rather than how often a loop ran.
"""
import json
import os
import traceback

import numpy as np

REPO_SRC = os.path.join('/repo', 'simphox') + os.sep


class Monitor:
    def __init__(self, scenario=''):
        self.scenario = scenario
        self.evaluations = 0
        self.events = {}
        self.signature = None
        self.nontrivial = False
        self.violations = []  # (key, detail)
        self.worst = {}  # check name -> largest observed error / tolerance

    def case(self, nontrivial=True, **sig):
        """Describe the case (a small dict of what distinguishes it) and whether it is non-trivial."""
        self.signature = {k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v))
                          for k, v in sig.items()}
        self.nontrivial = bool(nontrivial)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def violation(self, what, **detail):
        self.violations.append((f'{self.scenario}:{what}', {k: _short(v) for k, v in detail.items()}))

    def check(self, cond, what, **detail):
        self.evaluations += 1
        if not bool(cond):
            self.violation(what, **detail)
        return bool(cond)

    def close(self, got, want, tol, what, scale=None, **detail):
        """max |got - want| <= tol * scale (scale defaults to max(1, |want|)); NaN and shape differences fail."""
        self.evaluations += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violation(what, reason='shape', got=got.shape, want=want.shape, **detail)
            return False
        if want.size == 0:
            return True
        s = max(1.0, float(np.max(np.abs(want)))) if scale is None else float(scale)
        err = float(np.max(np.abs(got - want))) / s if s > 0 else float(np.max(np.abs(got - want)))
        if not np.isnan(err):
            self.worst[what] = max(self.worst.get(what, 0.0), err / tol if tol > 0 else err)
        if not err <= tol:
            self.violation(what, err=err, tol=tol, got=got, want=want, **detail)
            return False
        return True

    def small(self, value, tol, what, **detail):
        self.evaluations += 1
        value = float(np.max(np.abs(value))) if np.size(value) else 0.0
        if not np.isnan(value):
            self.worst[what] = max(self.worst.get(what, 0.0), value / tol)
        if not value <= tol:
            self.violation(what, value=value, tol=tol, **detail)
            return False
        return True

    def raises(self, exc, fn, what):
        """The documented refusal: fn must raise exc."""
        self.evaluations += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # another error than the documented one
            self.violation(what, got=repr(e))
            return False
        self.violation(what, got='no exception')
        return False

    def record(self):
        return dict(evaluations=self.evaluations, events=self.events, sig=self.signature, nontrivial=self.nontrivial,
                    violations=self.violations, worst=self.worst)


def _short(v):
    if isinstance(v, (int, float, str, bool, type(None))):
        return v if not isinstance(v, str) else v[:400]
    try:
        a = np.asarray(v)
        if a.dtype.kind in 'biufc':
            with np.printoptions(precision=6, threshold=24, linewidth=160):
                return str(a)[:600]
    except Exception:
        pass
    return repr(v)[:400]


ENV_ERRORS = (MemoryError, ImportError, FileNotFoundError, PermissionError, ConnectionError, BrokenPipeError)


class Inconclusive(Exception):
    """The harness could not decide (missing tool, environment problem)."""


def run_case(fn, scenario, case_seed, size):
    """Run one case under its monitor and return the record (violations include exceptions of the code under test)."""
    mon = Monitor(scenario)
    rng = np.random.default_rng(case_seed)
    np.random.seed(case_seed % (2 ** 32))
    try:
        fn(rng, mon, size)
    except Inconclusive as e:
        rec = mon.record()
        rec['inconclusive'] = repr(e)
        return rec
    except ENV_ERRORS as e:
        rec = mon.record()
        rec['inconclusive'] = repr(e) + traceback.format_exc()[-800:]
        return rec
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO_SRC)]
        where = f'{os.path.basename(inside[-1].filename)}' if inside else 'result'
        # a valid input must not raise; without a frame in the repository the result had an impossible form
        mon.evaluations += 1
        mon.violations.append((f'{scenario}:exception:{type(e).__name__}:{where}',
                               {'error': repr(e)[:500], 'traceback': traceback.format_exc()[-1800:]}))
    return mon.record()


def dumps(o):
    return json.dumps(o, default=str)
