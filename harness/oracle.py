"""Assertions and slow but obvious reference implementations"""
import math

import astropy.units as u
import numpy as np


def fail(msg):
    raise AssertionError(msg)


def check(cond, msg):
    if not cond:
        raise AssertionError(msg)


def shape_is(a, shape, what):
    check(np.shape(a) == tuple(shape), f"{what}: shape is {np.shape(a)}, expected {tuple(shape)}")


def value(x, unit, what):
    """value of x in unit, has to be a quantity of this physical type. If no
    unit is given, x must be dimensionless or not a quantity."""
    if unit is None:
        if hasattr(x, "unit") and x.unit is not None:
            check(
                u.Unit(x.unit).is_equivalent(u.one),
                f"{what}: has unit {x.unit}, expected dimensionless",
            )
            return np.asarray(u.Quantity(x).to_value(u.one))
        return np.asarray(x)
    check(
        hasattr(x, "unit") and x.unit is not None
        and u.Unit(x.unit).is_equivalent(u.Unit(unit)),
        f"{what}: unit is {getattr(x, 'unit', None)}, expected {unit}",
    )
    return np.asarray(u.Quantity(x).to_value(unit))


def close(actual, expected, what, rtol=1e-9, atol=0.0, unit=None, scale=None):
    """Same shape and values. ``scale`` is the size of the numbers, from which
    the result was computed, atol = rtol * scale"""
    actual = value(actual, unit, what)
    expected = np.asarray(expected, dtype=float)
    check(
        actual.shape == expected.shape,
        f"{what}: shape is {actual.shape}, expected {expected.shape}",
    )
    check(
        np.issubdtype(actual.dtype, np.number) or actual.dtype == bool,
        f"{what}: dtype is {actual.dtype}",
    )
    actual = actual.astype(float)
    if scale is not None:
        atol = atol + rtol * scale
    with np.errstate(all="ignore"):
        ok = (
            (np.abs(actual - expected) <= atol + rtol * np.abs(expected))
            | (actual == expected)
            | (np.isnan(actual) & np.isnan(expected))
        )
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0]) if ok.ndim else ()
        fail(
            f"{what}: {int(np.sum(~ok))} of {ok.size} values differ, first at {i}:"
            f" got {actual[i]!r}, expected {expected[i]!r} (rtol={rtol}, atol={atol})"
        )


def centers(actual, edges, what, unit=None):
    """Center of the bins, which is only defined for finite edges"""
    edges = np.asarray(edges, dtype=float)
    finite = np.isfinite(edges[:-1]) & np.isfinite(edges[1:])
    actual = value(actual, unit, what)
    shape_is(actual, finite.shape, what)
    scale = np.max(np.abs(edges[np.isfinite(edges)]), initial=0.0)
    with np.errstate(all="ignore"):
        expected = 0.5 * (edges[:-1] + edges[1:])
    check(not np.any(np.isfinite(actual[~finite])), f"{what} of a bin with infinite edges is {actual[~finite]}")
    close(actual[finite], expected[finite], what, rtol=1e-12, atol=1e-14 * scale)


def same(actual, expected, what):
    """Exactly the same values"""
    a, e = np.asarray(actual), np.asarray(expected)
    check(a.shape == e.shape, f"{what}: shape is {a.shape}, expected {e.shape}")
    ok = (a == e)
    if a.dtype.kind == "f" and e.dtype.kind == "f":
        ok = ok | (np.isnan(a) & np.isnan(e))
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0]) if np.ndim(ok) else ()
        fail(f"{what}: first difference at {i}: got {a[i]!r}, expected {e[i]!r}")


def raises(kinds, func, *args, what="", **kwargs):
    try:
        func(*args, **kwargs)
    except kinds:
        return
    fail(f"{what}: did not raise {kinds}")


def bin_of(x, edges):
    """index of the half open bin, -1 for underflow, n for overflow"""
    n = len(edges) - 1
    if x < edges[0]:
        return -1
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    return n


def bins_of(values, edges):
    """bin_of for many values"""
    values, e = np.asarray(values, float), np.asarray(edges, float)
    out = np.full(values.shape, len(e) - 1)
    out[values < e[0]] = -1
    for i in range(len(e) - 1):
        out[(e[i] <= values) & (values < e[i + 1])] = i
    return out


def hist_index(x, edges):
    """bin in a histogram: half open, the last one closed, None if outside"""
    n = len(edges) - 1
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    if x == edges[-1]:
        return n - 1
    return None


def hist(values, edges, weights=None):
    n = len(edges) - 1
    out = np.zeros(n)
    for k, i in enumerate(hist_indices(values, edges).tolist()):
        if i >= 0:
            out[i] += 1 if weights is None else weights[k]
    return out


def cone(theta):
    """solid angle of a cone, accurate also for small angles"""
    return 4 * math.pi * np.sin(np.asarray(theta, dtype=float) / 2) ** 2


def unit_vector(lon, lat):
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def separation(lon1, lat1, lon2, lat2):
    a, b = unit_vector(lon1, lat1), unit_vector(lon2, lat2)
    c = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(c, np.sum(a * b, axis=-1))


def hist_indices(x, edges):
    """vectorized hist_index, -1 if outside"""
    x, e = np.asarray(x, float), np.asarray(edges, float)
    out = np.full(x.shape, -1)
    for i in range(len(e) - 1):
        out[(x >= e[i]) & (x < e[i + 1])] = i
    out[x == e[-1]] = len(e) - 2
    return out


def hist_nd(columns, edges, weights=None):
    idx = [hist_indices(x, e) for x, e in zip(columns, edges)]
    out = np.zeros([len(e) - 1 for e in edges])
    for k in range(len(idx[0])):
        i = tuple(j[k] for j in idx)
        if min(i) >= 0:
            out[i] += 1 if weights is None else weights[k]
    return out
