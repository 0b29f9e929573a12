import math

import numpy as np

from .runner import Skip, Violation

KEYS = ("FL", "FD", "FS", "FX", "FY", "FZ", "MX", "MY", "MZ")
FK, MK = KEYS[:6], KEYS[6:]


def close(what, got, want, scale, rtol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    err = np.abs(got - want)
    lim = rtol * np.asarray(scale, float)
    bad = ~(err <= lim)
    if np.any(bad):
        if got.ndim:
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            raise Violation("%s%s = %r, expected %r (tolerance %.3g)" % (
                what, list(map(int, i)), float(got[i]), float(want[i]),
                float(np.broadcast_to(lim, err.shape)[i])))
        raise Violation("%s = %r, expected %r (tolerance %.3g)" % (what, float(got), float(want), float(lim)))


def same(what, got, want, rtol=1e-9):
    """Arrays equal up to round off relative to their own magnitude."""
    want = np.asarray(want, float)
    scale = np.max(np.abs(want)) if want.size else 0.
    close(what, got, want, scale if scale > 0 else 1e-12, rtol)


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def require(cond):
    if not cond:
        raise Skip()


def forces_close(what, got, want, fs, ms, rtol=1e-7, keys=KEYS):
    for k in keys:
        check(k in got, "%s: result %r missing", what, k)
        close("%s %s" % (what, k), got[k], want[k], fs if k in FK else ms, rtol)


def vec(res, keys):
    return np.array([res[k] for k in keys])


def fmag(res):
    return math.sqrt(sum(res[k] ** 2 for k in ("FX", "FY", "FZ")))


def mmag(res):
    return math.sqrt(sum(res[k] ** 2 for k in ("MX", "MY", "MZ")))
