"""Shared harness of the runtime-monitoring checks.

A check is a module `checks/<ID>.py` that declares workload *families*.  Every
family is a function `fn(ck, rng)` that drives the real code of /repo with one
randomly generated workload and feeds what it observes to the oracles through

    ck.expect(cond, mech, detail)     one oracle verdict
    ck.close(a, b, mech, ...)         numeric oracle verdict
    ck.event(name, n)                 something a monitor observed
    ck.key(*parts)                    signature of the (non-trivial) case
    ck.sample(obj)                    a written-out case for the evidence file

The runner executes the cases of all the families in worker processes (fresh
import of /repo's working tree, no build products are reused), collects the
verdicts and writes the evidence file.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np


class Abort(Exception):
    """Raised to stop a case after a failed verdict that makes it pointless."""


class CaseTimeout(BaseException):
    pass


FAMILIES = {}


class Family:

    def __init__(self, fn, quick, thorough, timeout):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout


def family(quick, thorough=None, timeout=150):
    """Registers a workload family with its number of cases per tier."""

    def deco(fn):
        FAMILIES[fn.__name__] = Family(
            fn, quick, thorough if thorough is not None else quick * 8, timeout)
        return fn

    return deco


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {"shape": list(x.shape), "head": jsonable(x.flatten()[:12])}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return "%r" % complex(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Monitor:
    """Collects the observations and verdicts of one case."""

    def __init__(self):
        self.events = {}
        self.keys = []
        self.samples = []
        self.failures = []
        self.verdicts = 0

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def key(self, *parts):
        raw = repr(parts).encode()
        self.keys.append(hashlib.md5(raw).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(jsonable(obj))

    def fail(self, mech, detail=None):
        self.failures.append({"mech": mech, "detail": jsonable(detail)})

    def expect(self, cond, mech, detail=None):
        self.verdicts += 1
        if not cond:
            if callable(detail):
                detail = detail()
            self.fail(mech, detail)
            return False
        return True

    def require(self, cond, mech, detail=None):
        if not self.expect(cond, mech, detail):
            raise Abort(mech)

    def close(self, got, want, mech, rtol=1e-8, atol=1e-10, scale=None,
              detail=None):
        """got == want up to rtol * max(scale, |want|_inf) + atol."""
        got_a = np.asarray(got)
        want_a = np.asarray(want)
        ok = True
        why = None
        if got_a.shape != want_a.shape:
            ok, why = False, "shape %s != %s" % (got_a.shape, want_a.shape)
        elif got_a.size:
            s = np.max(np.abs(want_a)) if scale is None else max(
                scale, np.max(np.abs(want_a)))
            with np.errstate(all="ignore"):
                err = np.abs(got_a - want_a)
            bad = ~(err <= rtol * s + atol)
            if np.any(bad):
                i = np.unravel_index(
                    int(np.argmax(np.where(np.isnan(err), np.inf, err))),
                    err.shape)
                ok, why = False, "max err %r at %r: got %r want %r" % (
                    err[i], tuple(int(v) for v in i), got_a[i], want_a[i])
        self.verdicts += 1
        if not ok:
            if callable(detail):
                detail = detail()
            self.fail(mech, {"why": why, "detail": jsonable(detail)})
        return ok

    def raises(self, exc, fn, mech, detail=None):
        """The call must be refused with one of the exceptions."""
        try:
            fn()
        except exc:
            self.verdicts += 1
            return True
        except Exception as e:  # wrong kind of refusal
            self.verdicts += 1
            self.fail(mech, {"raised": repr(e), "detail": jsonable(detail)})
            return False
        self.verdicts += 1
        self.fail(mech, {"raised": None, "detail": jsonable(detail)})
        return False


def case_rng(seed, fam, index):
    return np.random.default_rng(
        [int(seed), zlib.crc32(fam.encode()), int(index)])


def run_case(fam, seed, index):
    """Runs one case in this process. Returns a result dictionary."""
    import signal
    mon = Monitor()
    rng = case_rng(seed, fam.name, index)
    np.random.seed(zlib.crc32(("%s/%s/%s" % (seed, fam.name, index)).encode()))

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout, 5)
    t0 = time.time()
    error = None
    try:
        fam.fn(mon, rng)
    except Abort:
        pass
    except CaseTimeout:
        mon.fail("hang", {"after_s": fam.timeout})
    except Exception as e:
        tb = traceback.format_exc()
        mon.fail("exception:%s" % type(e).__name__, {"traceback": tb[-3000:]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {
        "family": fam.name,
        "index": index,
        "events": mon.events,
        "keys": mon.keys,
        "samples": mon.samples,
        "failures": mon.failures,
        "verdicts": mon.verdicts,
        "error": error,
        "wall": time.time() - t0,
    }
