"""Event tables: columns of random values relative to given bin edges"""
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip

BASE = {"energy": ("TeV", gen.E_UNITS), "angle": ("deg", gen.ANG_UNITS)}


def axis(draw, kind, edges, log=False):
    """an axis (bins) with the unit of the bins and of the event column"""
    bins_unit, data_unit = gen.unit_pair(draw, BASE[kind][1])
    return dict(kind=kind, edges=edges, bins_unit=bins_unit, data_unit=data_unit, log=log)


#: ranges of energies in TeV
ENERGY = [(0.1, 10), (1e-3, 1e3), (1e-5, 1e-2), (20, 1e5)]


def bulk(draw, n, most=2500):
    """index and number of additional copies of one event (or of all: -1 in the same order, -2 next to each other),
    in few cases"""
    if n == 0 or not gen.rare(draw, 9):
        return None
    if gen.rare(draw, 6):
        return [draw(st.sampled_from([-1, -2])), many(draw) // n + 1]
    return [draw(st.integers(0, n - 1)), draw(st.integers(400, most))]


def many(draw):
    """number of events of a large table"""
    return int(10 ** gen.floats(draw, 1, 3.5, 5.2)[0])


def tile(draw, n, seldom=30):
    """all events are repeated in few cases"""
    return [draw(st.sampled_from([-1, -2])), many(draw) // n + 1] if n and gen.rare(draw, seldom) else None


def expand(values, bulk):
    if bulk is None:
        return list(values)
    k, copies = bulk
    values = list(values)
    if k == -1:
        return values * copies
    if k == -2:
        return [x for x in values for _ in range(copies)]
    # the copies are neither at the end nor next to the event
    pos = len(values) // 2
    return values[:pos] + [values[k]] * copies + values[pos:]


def column(draw, ax, n, margin=0.25):
    """n values in, around and exactly on the bin edges of the axis"""
    e = [x for x in ax["edges"] if np.isfinite(x)]
    specials = e if ax["bins_unit"] == ax["data_unit"] else []
    if ax["log"]:
        lo = e[0] if e[0] > 0 else (e[1] * 0.1 if len(e) > 1 else 0.1)
        return gen.floats(draw, n, lo * (1 - margin), e[-1] * (1 + margin), specials, log=True)
    w = (e[-1] - e[0]) * margin
    lo = e[0] - w
    if e[0] >= 0:
        lo = max(lo, 0)
    return gen.floats(draw, n, lo, e[-1] + w, specials)


def bins(ax):
    return gen.q(ax["edges"], BASE[ax["kind"]][0], ax["bins_unit"])


def data(ax, values):
    return gen.q(values, BASE[ax["kind"]][0], ax["data_unit"])


def native(ax, values):
    """values and edges as numbers, which were compared in the same unit"""
    d = data(ax, values).value
    e = bins(ax).to_value(ax["data_unit"])
    if ax["data_unit"] != ax["bins_unit"] and gen.ambiguous(d, e):
        raise Skip
    return d, e
