"""Observations of the real code: datasets as labelled cells, and their comparison."""
from __future__ import annotations
import math
import numpy as np

from .core import Violation


def must(fn, *a, _what="", **k):
    """the property says this call succeeds"""
    try:
        return fn(*a, **k)
    except (MemoryError, RecursionError):
        raise
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{_what or getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e}")


def attempt(fn, *a, **k):
    """-> (value, None) or (None, exception)"""
    try:
        return fn(*a, **k), None
    except (MemoryError, RecursionError):
        raise
    except Violation:
        raise
    except Exception as e:
        return None, e


def times_ns(x) -> list[int]:
    a = np.asarray(getattr(x, "values", x))
    if a.size == 0:
        return []
    a = np.atleast_1d(a)
    if a.dtype.kind != "M":
        a = a.astype("datetime64[us]")
    if np.isnat(a).any():
        raise Violation("a time is NaT")
    return a.astype("datetime64[ns]").astype("int64").tolist()


def cells(ds, ignore=lambda v: v.startswith("spare")) -> dict:
    """{variable: {(ns, sv): value}} of the non-NaN cells of a time x sv dataset"""
    out = {}
    if "time" not in ds.coords or "sv" not in ds.coords:
        if len(ds.data_vars):
            raise Violation(f"dataset lacks time/sv coordinates: {dict(ds.sizes)}")
        return out
    t = times_ns(ds.time)
    sv = [str(s) for s in np.atleast_1d(ds.sv.values).tolist()]
    if len(set(t)) != len(t):
        raise Violation("time coordinate has repeated epochs")
    if len(set(sv)) != len(sv):
        raise Violation(f"sv coordinate has repeated satellites {sv}")
    for v in ds.data_vars:
        if ignore(v):
            continue
        da = ds[v]
        if set(da.dims) != {"time", "sv"}:
            raise Violation(f"variable {v} has dimensions {da.dims}")
        a = np.asarray(da.transpose("time", "sv").values)
        if a.dtype.kind != "f":
            a = a.astype(float)
        ii, jj = np.nonzero(~np.isnan(a))
        out[v] = {(t[i], sv[j]): float(a[i, j]) for i, j in zip(ii.tolist(), jj.tolist())}
    return out


def coords_of(ds):
    if "time" not in ds.coords or "sv" not in ds.coords:
        return [], []
    return times_ns(ds.time), [str(s) for s in np.atleast_1d(ds.sv.values).tolist()]


def close(a, b, tol=1e-12):
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(abs(a), abs(b)))


def tstr(t):
    return str(np.datetime64(int(t), "ns"))


def diff(got: dict, exp: dict, what="load", tol=1e-12):
    """raise Violation on the first difference; got may have empty variables"""
    for v in sorted(set(exp) | set(got)):
        g, e = got.get(v, {}), exp.get(v, {})
        if g == e:
            continue
        for k in sorted(set(g) | set(e)):
            if k not in g:
                raise Violation(f"{what}: {v} of {k[1]} at {tstr(k[0])} is missing, should be {e[k]!r}")
            if k not in e:
                raise Violation(f"{what}: {v} of {k[1]} at {tstr(k[0])} is {g[k]!r}, should not be there")
            if not close(g[k], e[k], tol):
                raise Violation(f"{what}: {v} of {k[1]} at {tstr(k[0])} is {g[k]!r}, should be {e[k]!r}")


def check_obs(ds, exp, all_types, times, sats, what="load"):
    """full comparison of an observation dataset with the reference"""
    got = cells(ds)
    for v in got:
        if v not in all_types:
            raise Violation(f"{what}: variable {v} is not an observation type of the file")
    t, sv = coords_of(ds)
    for x in t:
        if x not in times:
            raise Violation(f"{what}: epoch {tstr(x)} is not in the file (or not selected)")
    for s in sv:
        if s not in sats:
            raise Violation(f"{what}: satellite {s} is not in the file (or not selected)")
    diff(got, exp, what)
    return got


def same_data(a, b, what):
    """two datasets have the same labelled data"""
    ca, cb = cells(a, ignore=lambda v: False), cells(b, ignore=lambda v: False)
    diff(ca, cb, what)
    return ca


def norm_attr(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [norm_attr(x) for x in np.asarray(v, dtype=object).ravel().tolist()]
    if isinstance(v, (np.integer, int)) and not isinstance(v, bool):
        return float(v)
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, np.generic):
        return v.item()
    return v


def attr_eq(a, b):
    a, b = norm_attr(a), norm_attr(b)
    if isinstance(a, list) != isinstance(b, list):  # netCDF turns a list of one into a scalar
        a = a if isinstance(a, list) else [a]
        b = b if isinstance(b, list) else [b]
    if isinstance(a, list):
        return len(a) == len(b) and all(attr_eq1(x, y) for x, y in zip(a, b))
    return attr_eq1(a, b)


def attr_eq1(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return (math.isnan(x) and math.isnan(y)) or close(x, y, 1e-12)
    return x == y
