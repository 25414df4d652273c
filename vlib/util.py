"""Comparison helpers: every mismatch, wrong shape or non-finite number is a Violation."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib.core import Violation


def fl(a, b):
    """Finite floats in [a, b]."""
    return st.floats(min_value=a, max_value=b, allow_nan=False, allow_infinity=False)


def fx(**kw):
    """Fixed dictionaries."""
    return st.fixed_dictionaries(kw)


def short(x):
    x = np.asarray(x)
    with np.printoptions(threshold=12, precision=9, edgeitems=4):
        return str(x).replace("\n", " ")


def asnum(what, x):
    """Convert to a float array, or report."""
    try:
        return np.asarray(x, dtype=float)
    except Exception as e:  # wrong kind of result from the code under test
        raise Violation(f"{what}: not numeric: {type(x).__name__} {str(x)[:100]} ({e})") from e


def finite(what, x):
    x = asnum(what, x)
    if not np.all(np.isfinite(x)):
        raise Violation(f"{what}: non-finite values {short(x)}")
    return x


def shape(what, x, shp):
    x = asnum(what, x)
    if x.shape != tuple(shp):
        raise Violation(f"{what}: has shape {x.shape}, expected {tuple(shp)}")
    return x


def close(what, got, want, rtol=1e-6, atol=0.0, scale=None, same_shape=True):
    """``got`` equals ``want`` to rtol (relative to each element, or to ``scale``)."""
    want = np.asarray(want, dtype=float)
    got = asnum(what, got)
    if same_shape and got.shape != want.shape:
        raise Violation(f"{what}: has shape {got.shape}, expected {want.shape}")
    got, want = np.broadcast_arrays(got, want)
    both_nan = np.isnan(want)
    if np.any(both_nan):
        raise RuntimeError(f"oracle gave NaN for {what}")
    tol = atol + rtol * (np.abs(want) if scale is None else scale)
    err = np.abs(got - want)
    bad = ~(err <= tol)
    # equal infinities are equal
    bad &= ~(np.isinf(want) & (got == want))
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(err / np.maximum(tol, 1e-300), nan=np.inf, posinf=1e300), -1))), bad.shape) if bad.ndim else ()
        raise Violation(
            f"{what}: {int(bad.sum())}/{bad.size} values differ; worst at {tuple(int(j) for j in i)}: got "
            f"{got[i]!r}, expected {want[i]!r} (tolerance {np.broadcast_to(tol, bad.shape)[i]:.3g})"
        )


def ensure(cond, what):
    if not bool(cond):
        raise Violation(what)


def raises(what, exc, fn):
    """``fn`` must raise one of ``exc``; anything else (or nothing) is a violation."""
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}({str(e)[:100]}), expected {exc}") from e
    raise Violation(f"{what}: accepted, expected {exc}")
