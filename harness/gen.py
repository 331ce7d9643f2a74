"""Strategies for plain (json) cases and helpers to build the objects in the checks"""
import struct

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

E_UNITS = ["TeV", "GeV", "MeV", "erg"]
ANG_UNITS = ["deg", "rad", "arcmin", "arcsec"]
LEN_UNITS = ["m", "km", "cm"]
TIME_UNITS = ["s", "h", "d", "min"]
AREA_UNITS = ["m2", "cm2", "km2"]
FLUX_UNITS = ["TeV-1 cm-2 s-1", "GeV-1 m-2 s-1", "erg-1 km-2 h-1", "MeV-1 cm-2 d-1"]
DIFFUSE_UNITS = ["TeV-1 cm-2 s-1 sr-1", "GeV-1 m-2 s-1 sr-1", "TeV-1 m-2 s-1 deg-2"]


def mostly(draw, first, others):
    """``first`` in half of the cases, else any of the others"""
    if draw(st.booleans()):
        return first
    return draw(st.sampled_from(list(others)))


def pick(draw, options, lo, hi, log=False, digits=4):
    """one of the options or any (rounded) number in [lo, hi]"""
    if draw(st.booleans()):
        return draw(st.sampled_from(list(options)))
    return float(f"{floats(draw, 1, lo, hi, log=log)[0]:.{digits}g}")


def span(draw, usual, *others):
    """a range (lower, upper), mostly the usual one"""
    return draw(st.sampled_from(others)) if rare(draw, 4) else usual


def rare(draw, k):
    """True in about one of k cases"""
    # not a limit of the range, as hypothesis prefers these
    return draw(st.integers(0, max(k, 3))) == 2


def unit(draw, units):
    return draw(st.sampled_from(units))


def unit_pair(draw, units):
    """two units, the same or different ones with about equal probability"""
    a = draw(st.integers(0, len(units) - 1))
    b = a
    if len(units) > 1 and draw(st.booleans()):
        b = (a + draw(st.integers(1, len(units) - 1))) % len(units)
    return units[a], units[b]


def fractions(draw, n):
    """n numbers in [0, 1]"""
    if n == 0:
        return []
    data = draw(st.binary(min_size=2 * n, max_size=2 * n))
    # hypothesis likes bytes of zeros, the offset maps these to numbers which are
    # all different from each other (golden ratio sequence), not to constants
    return [
        ((x + 40503 * (k + 1)) & 0xFFFF) / 65535
        for k, x in enumerate(struct.unpack(f"<{n}H", data))
    ]


def floats(draw, n, lo, hi, specials=(), log=False, max_specials=6):
    """n numbers in [lo, hi], some of them replaced by one of ``specials``"""
    f = fractions(draw, n)
    if log:
        a, b = np.log10(lo), np.log10(hi)
        vals = [float(10 ** (a + (b - a) * x)) for x in f]
        vals = [min(max(v, lo), hi) for v in vals]
    else:
        vals = [float(lo + (hi - lo) * x) for x in f]
    specials = list(specials)
    if specials and n > 0:
        for _ in range(draw(st.integers(0, max_specials))):
            pos = draw(st.integers(0, n - 1))
            vals[pos] = float(draw(st.sampled_from(specials)))
    return vals


def weights(draw, n, lo, hi, specials=(), max_specials=6):
    """n weights: any numbers, from a few different ones (with many ties) or mostly the same one"""
    kind = draw(st.integers(0, 5))
    if kind >= 3 or n == 0:
        return floats(draw, n, lo, hi, specials, max_specials=max_specials)
    if kind == 0:
        values = floats(draw, 3, lo, hi, specials)
        w = [values[k] for k in ints(draw, n, 0, 2)]
    elif kind == 1:
        w = floats(draw, 1, lo, hi) * n
        for _ in range(draw(st.integers(0, 3))):
            w[draw(st.integers(0, n - 1))] = float(draw(st.sampled_from([0.0, 1.0] + list(specials))))
    else:
        w = floats(draw, n, lo, hi, specials, max_specials=max_specials)
    # as often checked to decide whether all are the same
    if draw(st.booleans()):
        w[-1] = w[0]
    return w


def ints(draw, n, lo, hi):
    return [int(round(lo + (hi - lo) * x)) for x in fractions(draw, n)]


def size(draw, small=12, large=60, huge=0):
    """number of events: often few, sometimes none, sometimes many"""
    # hypothesis prefers the limits of a range, which are no special cases here
    kind = draw(st.integers(0, 39))
    if kind == 7:
        return 0
    if kind == 8:
        return 1
    if kind == 9 and huge:
        return huge - draw(st.integers(0, huge - large))
    if kind < 24:
        return small - draw(st.integers(0, small - 2))
    return draw(st.integers(small, large))


def count(draw, lo, hi, many, k=20):
    """a number, mostly of the usual range, rarely a large one"""
    return draw(st.integers(hi, many)) if rare(draw, k) else draw(st.integers(lo, hi))


def edges(draw, lo, hi, n_min=1, n_max=6, log=False, many=0):
    """Strictly increasing edges within [lo, hi], uniform or of different widths, sometimes up to ``many`` bins"""
    n = draw(st.integers(n_min, n_max))
    if many and rare(draw, 25):
        n = draw(st.integers(n_max, many))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        f = np.linspace(0, 1, n + 1)
    else:
        w = np.array(fractions(draw, n)) + 0.05
        f = np.append(0, np.cumsum(w) / np.sum(w))
        f[-1] = 1
    a, b = lo, hi
    if draw(st.booleans()):
        # only cover a part
        x, y = sorted(fractions(draw, 2))
        if y - x > 0.05:
            if log:
                a, b = lo * (hi / lo) ** x, lo * (hi / lo) ** y
            else:
                a, b = lo + (hi - lo) * x, lo + (hi - lo) * y
    if log:
        e = a * (b / a) ** f
    else:
        e = a + (b - a) * f
    e = [float(f"{x:.12g}") for x in e]
    assert all(y > x for x, y in zip(e[:-1], e[1:]))
    return e


def around(values):
    """The values and their neighbouring floats"""
    out = []
    for v in values:
        out += [v, v, float(np.nextafter(v, -np.inf)), float(np.nextafter(v, np.inf))]
    return out


def q(values, base, to):
    """Quantity in unit ``to`` for values given in unit ``base``"""
    values = np.array(values, dtype=float)
    base, to = u.Unit(base), u.Unit(to)
    if base == to:
        return u.Quantity(values, to)
    return u.Quantity(values, base).to(to)


def ambiguous(values, edges, rtol=1e-12):
    """True if any value is so close to an edge, that rounding decides on its bin"""
    values = np.atleast_1d(np.asarray(values, dtype=float))
    for e in np.asarray(edges, dtype=float):
        if not np.isfinite(e):
            continue
        if np.any(np.abs(values - e) <= rtol * max(abs(e), 1e-300)):
            return True
    return False


def weave(values, dtype="f8", layout="c"):
    """array of the same values with different dtype / memory layout"""
    a = np.array(values, dtype=dtype)
    if layout == "strided":
        b = np.empty((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        b[...] = np.array(-77, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "readonly":
        a.flags.writeable = False
        return a
    return a
