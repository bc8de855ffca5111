"""Monitoring runtime: cases, observations, violations.

A *monitor* is a function ``f(c)`` that drives the real code with one generated workload (``c.rng``) and
reports to ``c`` every time its oracle compared something the code did with what the property demands.
Three-valued verdict: a violation needs a witness; a monitor that observed too little is inconclusive
(error exit), never "held".
"""
import hashlib
import json
import logging
import os
import signal
import time
import traceback
import zlib

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
MONITORS = {}  # property -> list of Monitor


class Monitor:
    def __init__(self, pid, name, func, quick, thorough, min_obs, timeout, what):
        self.pid, self.name, self.func = pid, name, func
        self.quick, self.thorough = quick, thorough
        self.min_obs, self.timeout, self.what = min_obs, timeout, what


def monitor(pid, quick, thorough=None, min_obs=None, timeout=300):
    """register a monitor; `quick`/`thorough`: the number of cases per tier"""

    def deco(func):
        n = quick if thorough is None else thorough
        MONITORS.setdefault(pid, []).append(
            Monitor(
                pid,
                func.__name__,
                func,
                quick,
                n,
                max(1, quick // 2) if min_obs is None else min_obs,
                timeout,
                (func.__doc__ or "").strip(),
            )
        )
        return func

    return deco


class Skip(Exception):
    """the generated case is outside the property's precondition"""


class BudgetExceeded(Exception):
    """the code under test exceeded a logical step budget (bounded-progress oracle)"""


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


def jsonable(o, depth=0):
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:400]]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1) if o.size <= 400 else f"array{o.shape}"
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "__array__"):
        return jsonable(np.asarray(o), depth + 1)
    return repr(o)[:300]


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        if isinstance(o, (np.ndarray,)) or hasattr(o, "__array__"):
            a = np.ascontiguousarray(np.asarray(o))
            h.update(str(a.shape).encode())
            h.update(a.tobytes())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()


class Case:
    def __init__(self, mon, seed, index, tier):
        self.mon, self.seed, self.i, self.tier = mon, seed, index, tier
        self.thorough = tier == "thorough"
        self.rng = np.random.default_rng([seed, zlib.crc32(f"{mon.pid}/{mon.name}".encode()), index])
        self.n_obs = 0
        self.keys = set()
        self.stats = {}
        self.fails = []
        self.sample_ = None
        self.ctx = {}

    # -- workload bookkeeping
    def seed_global(self):
        """the code under test draws from numpy's global generator in places"""
        np.random.seed(int(self.rng.integers(2**31)))

    def describe(self, **kw):
        """context stored with a violation (the input of the case)"""
        self.ctx.update(kw)

    def saw(self, *key, n=1, nontrivial=True):
        """the oracle evaluated `n` observations; `key` identifies the observed input/state"""
        self.n_obs += n
        if nontrivial:
            self.keys.add(digest(*key))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def sample(self, **kw):
        if self.sample_ is None:
            self.sample_ = jsonable(dict(monitor=self.mon.name, index=self.i, **kw))

    # -- verdicts
    def fail(self, mechanism, message, **data):
        self.fails.append(
            dict(mechanism=mechanism, message=message, data=jsonable({**self.ctx, **data}))
        )

    def require(self, cond, mechanism, message, **data):
        if not cond:
            self.fail(mechanism, message, **data)
        return bool(cond)

    def close(self, got, want, mechanism, what, rtol=1e-8, atol=1e-10, **data):
        """same shape, and equal up to rounding relative to the magnitude of the reference"""
        got, want = np.asarray(got), np.asarray(want)
        ok = got.shape == want.shape
        if ok and got.size:
            scale = np.max(np.abs(want[np.isfinite(want)]), initial=0.0) if want.size else 0.0
            with np.errstate(all="ignore"):
                diff = np.abs(got.astype(float) - want.astype(float))
            same_nonfinite = (got == want) | (np.isnan(got) & np.isnan(want))
            ok = bool(np.all((diff <= atol + rtol * max(scale, 1e-300)) | same_nonfinite))
        if not ok:
            self.fail(mechanism, f"{what}: got {describe(got)}, expected {describe(want)}", got=got, want=want, **data)
        return ok


def describe(a):
    a = np.asarray(a)
    return f"{a.tolist()}" if a.size <= 12 else f"array{a.shape} {a.ravel()[:6].tolist()}..."


def frame_owner(exc):
    """'repo' if the exception came out of the code under test (or of what it called), 'answer' if what the code under test
    returned could not be processed (every monitor processes what the unchanged tree returns), 'harness' if the checks
    themselves are at fault"""
    if any(os.path.realpath(f.filename).startswith(REPO + "/") for f in traceback.extract_tb(exc.__traceback__)):
        return "repo"
    return "harness" if isinstance(exc, (AssertionError, ImportError, NameError, OSError, MemoryError)) else "answer"


def run_case(mon, seed, index, tier):
    logging.disable(logging.CRITICAL)  # the optimisers report every failed line search
    c = Case(mon, seed, index, tier)
    status, err = "ok", None

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(mon.timeout * (6 if tier == "thorough" else 1)))
    t0 = time.time()
    try:
        with np.errstate(all="ignore"):
            mon.func(c)
    except Skip as e:
        status = "skip"
        c.count(f"skipped: {e}" if str(e) else "skipped")
    except BudgetExceeded as e:
        c.fail("step-budget", f"no progress within the step budget: {e}")
    except CaseTimeout:
        status, err = "timeout", f"{mon.name}[{index}] hit the wall-clock watchdog"
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        owner = frame_owner(e)
        if owner != "harness":
            c.fail(
                f"exception:{type(e).__name__}",
                f"the code under test raised {type(e).__name__}: {str(e)[:300]}" if owner == "repo" else f"the answer could not be processed: {type(e).__name__}: {str(e)[:300]}",
                traceback=tb[-2500:],
            )
        else:
            status, err = "error", tb
    finally:
        signal.alarm(0)
    return dict(
        monitor=mon.name,
        index=index,
        status=status,
        err=err,
        n_obs=c.n_obs,
        keys=c.keys,
        stats=c.stats,
        fails=c.fails,
        sample=c.sample_,
        wall=time.time() - t0,
    )


def main_known(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)
