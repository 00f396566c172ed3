"""Bookkeeping shared by all explorations (runs inside the worker)."""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np


class Violation(AssertionError):
    """the property is broken in the current case"""


class Skip(Exception):
    """the case lies on a rounding boundary where the documented outcome is not unique"""


class Context:
    class Stop(Exception):
        pass

    def __init__(self, work, job):
        self.work = work
        self.tier = job["tier"]
        self.seed = job["seed"]
        self.only = job.get("only")
        self.only_key = None if self.only is None else json.dumps(self.only, sort_keys=True)
        self.violations = []
        self.samples = []
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.cases = 0
        self.counters = {}
        self._states = set()
        self._outcomes = set()
        self.last_case = None
        self._fd = os.open(os.path.join(work, "current"), os.O_CREAT | os.O_RDWR)
        self._beat = os.open(os.path.join(work, "beat"), os.O_CREAT | os.O_RDWR)
        self._len = 0
        self._t_beat = 0.0
        self.max_violations = 3

    @property
    def thorough(self):
        return self.tier == "thorough"

    # --- cases -------------------------------------------------------------------
    def case(self, desc, func, *args, **kwargs):
        """execute one case; `desc` identifies it (JSON-able)"""
        if self.only is not None and json.dumps(desc, sort_keys=True) != self.only_key:
            return None
        data = json.dumps(desc).encode()
        if len(data) < self._len:
            data = data + b" " * (self._len - len(data))
        self._len = len(data)
        os.pwrite(self._fd, data, 0)
        self.cases += 1
        os.pwrite(self._beat, b"%d" % self.cases, 0)
        self.last_case = desc
        try:
            res = func(*args, **kwargs)
            self.traces += 1
            if len(self.samples) < 2 or (len(self.samples) < 4 and self.cases in (50, 500)):
                self.samples.append(desc)
            return res
        except Skip:
            self.skipped += 1
        except Violation as e:
            self._violate(desc, str(e))
        except self.Stop:
            raise
        except Exception as e:
            self._violate(desc, f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6))
        return None

    def _violate(self, desc, msg):
        self.violations.append(dict(case=desc, message=msg))
        if len(self.violations) >= self.max_violations:
            raise self.Stop

    # --- coverage ----------------------------------------------------------------
    def state(self, *parts):
        self._states.add(digest(*parts))

    def outcome(self, *parts):
        self._outcomes.add(digest(*parts))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def finish(self):
        res = dict(
            states=len(self._states), transitions=self.transitions, traces=self.traces,
            skipped=self.skipped, outcomes=len(self._outcomes), samples=self.samples,
            counters=dict(self.counters, cases=self.cases), violations=self.violations,
        )
        tmp = os.path.join(self.work, "result.tmp")
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, os.path.join(self.work, "result.json"))


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            a = np.asarray(p, dtype=float)
            with np.errstate(all="ignore"):
                a = np.round(a, 6) + 0.0
            h.update(repr(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        elif isinstance(p, (float, np.floating)):
            h.update(b"%.6g" % float(p))
        else:
            h.update(repr(p).encode())
    return h.digest()


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(name, got, want, rtol=1e-8, atol=1e-10):
    """require equality up to rounding (different order of summation is fine)"""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape} instead of {want.shape}\n got {got}\n want {want}")
    if not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
        with np.errstate(all="ignore"):
            bad = np.abs(got - want)
        raise Violation(f"{name}: differs by {np.nanmax(bad) if bad.size else bad}\n got  {got.tolist()}\n want {want.tolist()}")


def same(name, got, want):
    """require bit-for-bit equal numbers"""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
        raise Violation(f"{name}: {got.tolist()} instead of {want.tolist()}")


def raises(exc, func, *args, **kwargs):
    try:
        func(*args, **kwargs)
    except exc:
        return
    except Exception as e:
        raise Violation(f"raised {type(e).__name__} ({e}) instead of {exc}")
    raise Violation(f"was accepted instead of raising {exc}")
