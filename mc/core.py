"""Bounded exhaustive explorer used by every check.

A property module (``mc/props/<id>.py``) exposes

    PROPERTY  the property id
    LEVEL     "model_checking" or "exploration"
    RULE      how cases are made and what makes one non-trivial
    ASSUMPTIONS
    UNITS     an ordered list of Unit objects

A Unit enumerates *one* finite space completely.  Each enumerated element is a
"case"; the unit calls ``ctx.case(key)`` at its beginning (a JSON-able key that
identifies the element), exercises the real code and compares with the oracle
through ``ctx.expect``/``ctx.equal``/``ctx.fail``.  Units run in parallel
worker processes.  There is no sampling anywhere: VERIF_SEED only rotates the
order in which units are started.
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback
import warnings

MAX_FAILS_PER_UNIT = int(os.environ.get("VERIF_MAX_FAILS", "3"))


class StopUnit(Exception):
    """Enough violations were collected in this unit."""


class Unit:
    def __init__(self, name, fn, tiers=("quick", "thorough"), **params):
        self.name = name
        self.fn = fn
        self.tiers = tiers
        self.params = params


def jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return repr(x)
    if isinstance(x, np.ma.MaskedArray):
        return {"masked": [None if m else jsonable(v, depth + 1) for v, m in zip(x.data.ravel().tolist(), np.ma.getmaskarray(x).ravel())]}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    if isinstance(x, BaseException):
        return f"{type(x).__name__}: {x}"
    return repr(x)[:300]


def same(a, b, rtol=1e-9, atol=1e-12):
    """Deep equality: NaN equals NaN, floats with tolerance, masked by mask."""
    import numpy as np

    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        a, b = np.ma.asarray(a), np.ma.asarray(b)
        if a.shape != b.shape:
            return False
        ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        if not np.array_equal(ma, mb):
            return False
        return same(list(a.data[~ma].ravel()), list(b.data[~mb].ravel()), rtol, atol)
    if isinstance(a, np.ndarray):
        if a.dtype.names:
            if not isinstance(b, np.ndarray) or b.dtype.names is None:
                return False
            return (
                sorted(a.dtype.names) == sorted(b.dtype.names)
                and a.shape == b.shape
                and all(same(a[n], b[n], rtol, atol) for n in a.dtype.names)
            )
        if a.dtype.kind in "fiub" and isinstance(b, np.ndarray) and b.dtype.kind in "fiub":
            return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) and math.isnan(a):
            return isinstance(b, float) and math.isnan(b)
        if isinstance(b, float) and math.isnan(b):
            return False
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


class Ctx:
    def __init__(self, prop, unit, tier, known, only=None, scratch=None):
        self.prop, self.unit, self.tier = prop, unit, tier
        self.known = [k for k in known if k.get("unit") in (None, unit)]
        self.only = only
        self.scratch = scratch
        self.key = None
        self.key_txt = None
        self.evaluations = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.nontrivial = set()
        self.samples = []
        self.fails = []
        self.known_hits = {}
        self.bounds = {}
        self.comparisons = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- enumeration ------------------------------------------------------
    def case(self, *key):
        """Start a case. Returns False when a replay wants another one."""
        if self.only is not None:
            if json.dumps(jsonable(key)) != json.dumps(self.only):
                self.key = key
                return False
        self.key = key
        self.evaluations += 1
        return True

    def state(self, canon):
        """Record a canonical state; True if it is new."""
        h = hashlib.blake2b(repr(canon).encode(), digest_size=12).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, value, trivial=False, sample=True):
        h = hashlib.blake2b(repr(jsonable(value)).encode(), digest_size=12).digest()
        self.outcomes.add(h)
        if not trivial:
            k = hashlib.blake2b(repr((jsonable(self.key), h)).encode(), digest_size=12).digest()
            self.nontrivial.add(k)
            if sample and len(self.samples) < 2:
                self.samples.append({"unit": self.unit, "case": jsonable(self.key), "observed": jsonable(value)})

    # -- oracle -----------------------------------------------------------
    def fail(self, msg, **detail):
        key = jsonable(self.key)
        rec = {
            "property": self.prop,
            "unit": self.unit,
            "case": key,
            "message": msg,
            "detail": jsonable(detail),
        }
        blob = json.dumps(key)
        for k in self.known:
            if k.get("property") != self.prop:
                continue
            if "case" in k and json.dumps(k["case"]) != blob:
                continue
            if "message_contains" in k and k["message_contains"] not in msg:
                continue
            self.known_hits.setdefault(k["id"], k["what"])
            return
        self.fails.append(rec)
        if len(self.fails) >= MAX_FAILS_PER_UNIT:
            raise StopUnit()

    def expect(self, cond, msg, **detail):
        self.comparisons += 1
        if not cond:
            self.fail(msg, **detail)
            return False
        return True

    def equal(self, got, want, msg="", rtol=1e-9, atol=1e-12, **detail):
        self.comparisons += 1
        if not same(got, want, rtol, atol):
            self.fail(msg or "differs from the reference", got=got, want=want, **detail)
            return False
        return True

    def call(self, fn, *a, **k):
        """Run code under test; (True, value) or (False, exception)."""
        try:
            return True, fn(*a, **k)
        except StopUnit:
            raise
        except Exception as e:  # noqa: BLE001
            return False, e

    def must(self, fn, *a, what="the operation", **k):
        """Run code that must not raise; returns (ok, value)."""
        ok, v = self.call(fn, *a, **k)
        if not ok:
            self.fail(f"{what} raised {type(v).__name__}", error=str(v)[:500], tb=tb_tail(v))
        return ok, v

    def raises(self, exc, fn, *a, what="the operation", **k):
        ok, v = self.call(fn, *a, **k)
        self.comparisons += 1
        if ok:
            self.fail(f"{what} should have been refused", got=v)
            return False
        if not isinstance(v, exc):
            self.fail(f"{what} raised {type(v).__name__}, expected {exc}", error=str(v)[:300])
            return False
        return True


def tb_tail(e):
    return traceback.format_exception(type(e), e, e.__traceback__)[-3:]


def run_unit(prop, unit, tier, known, only, scratch):
    """Executed in a worker process."""
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import logging

    logging.disable(logging.CRITICAL)
    t0 = time.time()
    ctx = Ctx(prop, unit.name, tier, known, only, scratch)
    try:
        unit.fn(ctx, **unit.params)
    except StopUnit:
        pass
    except Exception as e:  # an escape from code under test or the harness
        try:
            ctx.fail(f"unexpected {type(e).__name__} escaped", error=str(e)[:500], tb=traceback.format_exc().splitlines()[-12:])
        except StopUnit:
            pass
    return {
        "unit": unit.name,
        "wall_s": round(time.time() - t0, 3),
        "evaluations": ctx.evaluations,
        "comparisons": ctx.comparisons,
        "states": len(ctx.states),
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "distinct_outcomes": len(ctx.outcomes),
        "distinct_nontrivial": len(ctx.nontrivial),
        "samples": ctx.samples,
        "fails": ctx.fails,
        "known": ctx.known_hits,
        "bounds": ctx.bounds,
    }
