"""Shared vocabulary of the checks (no pytornado imports here)."""
import math
import numpy as np


class Violation(AssertionError):
    """The property is broken on this case"""


class Skip(Exception):
    """Case outside the property's domain (counted, never silently)"""


class Ctx:
    """Handed to every check function: scratch directory and bookkeeping of what the case exercised"""

    def __init__(self, workdir):
        self.workdir = workdir
        self.labels = set()
        self.is_nontrivial = True

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag):
        self.is_nontrivial = bool(flag)


class Sub:
    """One executable statement: generator + oracle + what counts as non-trivial"""

    def __init__(self, name, strategy, func, quick, thorough, rule):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough, self.rule = quick, thorough, rule


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """|got - want| <= atol + rtol*max(|want|, scale), elementwise, NaN-rejecting"""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, expected {want.shape}')
    if got.size == 0:
        return
    ref = np.abs(want)
    if scale is not None:
        ref = np.maximum(ref, np.abs(scale))
    err = np.abs(got - want)
    bad = ~(err <= atol + rtol*ref)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err/(atol + rtol*ref + 1e-300)) * bad), err.shape)
        raise Violation(f'{what}: at {tuple(int(k) for k in i)} got {got[i]!r}, expected {want[i]!r} '
                        f'({int(bad.sum())} of {bad.size} entries differ)')


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))
