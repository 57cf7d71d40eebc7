"""Check engine: cases are JSON specs drawn by Hypothesis, run against /repo, judged by
an oracle; the shrunk failing spec is the replay file."""
import boot
import collections
import contextlib
import hashlib
import io
import json
import os
import sys
import types

import numpy as np


class Violation(Exception):
    pass


class _Budget(Exception):
    pass


# --------------------------------------------------------------------------- hangs
# "does not return" is decided by counting loop iterations (taken jumps) inside dany's
# code, never by the clock.
_TOOL = 4
_count = [0, 0]


def _codes(obj, seen):
    if isinstance(obj, types.CodeType):
        if obj not in seen:
            seen.add(obj)
            for c in obj.co_consts:
                _codes(c, seen)


def _dany_codes():
    seen = set()
    for mod in list(sys.modules.values()):
        if mod is None or not getattr(mod, "__name__", "").startswith("dany"):
            continue
        for v in vars(mod).values():
            if isinstance(v, types.FunctionType) and v.__module__.startswith("dany"):
                _codes(v.__code__, seen)
            elif isinstance(v, type) and v.__module__.startswith("dany"):
                for w in vars(v).values():
                    if isinstance(w, property):
                        for f in (w.fget, w.fset):
                            if f is not None:
                                _codes(f.__code__, seen)
                    elif isinstance(w, (staticmethod, classmethod)):
                        _codes(w.__func__.__code__, seen)
                    elif isinstance(w, types.FunctionType):
                        _codes(w.__code__, seen)
    return seen


def _on_jump(code, a, b):
    _count[0] += 1
    if _count[0] > _count[1] > 0:
        raise _Budget()


def install_step_counter():
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "dany-verif")
    mon.register_callback(_TOOL, mon.events.JUMP, _on_jump)
    for c in _dany_codes():
        mon.set_local_events(_TOOL, c, mon.events.JUMP)


BUDGET = 4_000_000


def call(what, fn, *a, **k):
    """run code under test: exceptions and runaway loops on valid input are violations"""
    _count[0], _count[1] = 0, k.pop("_budget", BUDGET)
    allow = k.pop("_allow", ())
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)
    except _Budget:
        raise Violation(
            f"{what} did not return within {_count[1]} loop iterations"
        ) from None
    except allow:
        raise
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
        raise Violation(
            f"{what} raised {type(e).__name__}: {str(e)[:200]} ({' > '.join(loc)})"
        ) from None
    finally:
        _count[1] = 0


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(what, got, exp, tol=None):
    """array comparison with NaN == NaN, shape included"""
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {exp.shape}")
    if tol is None:
        try:
            bad = ~((got == exp) | ((got != got) & (exp != exp)))
        except TypeError:
            bad = np.array(got != exp)
    else:
        g, e = got.astype(float), exp.astype(float)
        bad = ~(
            (g == e)
            | (np.isnan(g) & np.isnan(e))
            | (np.abs(g - e) <= tol[0] + tol[1] * np.abs(e))
        )
    if bad.any():
        ix = tuple(int(v) for v in np.argwhere(bad)[0]) if got.ndim else ()
        raise Violation(
            f"{what}: {int(bad.sum())} of {bad.size} values differ, first at {ix}: "
            f"got {got[ix]!r}, expected {exp[ix]!r}"
        )


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Info:
    """what one case exercised"""

    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False
        self.known = []

    def label(self, *names):
        for n in names:
            self.labels[n] += 1


def dump(case, path, **extra):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(case=case, **extra), f, indent=1, sort_keys=True)
        f.write("\n")
