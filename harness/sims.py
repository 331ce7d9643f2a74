"""Cases for the information about simulated events, and the expected numbers"""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o


@st.composite
def sim_info(draw, diffuse=None, wide=False):
    """diffuse: True for a viewcone, False for point-like, None for both"""
    e_min = gen.pick(draw, [0.01, 0.03, 0.1, 1.0], 1e-3, 3, log=True)
    vmin = draw(st.sampled_from([0.0, 0.0, 0.0, 0.5, 2.0])) if not gen.rare(draw, 5) else gen.pick(draw, [0.001], 0.01, 6)
    width = gen.pick(draw, [0.5, 3.0, 5.0, 10.0], 0.2, 15)
    if wide and gen.rare(draw, 12):
        # up to the full sphere
        width = draw(st.sampled_from([60.0, 90.0, 120.0, 180.0 - vmin]))
    if diffuse is None:
        diffuse = draw(st.booleans())
    return dict(
        n=draw(st.sampled_from([1, 100, 12345, 10**8, 7 * 10**9])) if draw(st.booleans()) else draw(st.integers(1, 10**7)),
        e_min=e_min, e_max=float(f"{e_min * gen.pick(draw, [2.0, 10.0, 330.0, 1e4], 1.1, 1e5, log=True):.12g}"),
        impact=gen.pick(draw, [1.0, 100.0, 1500.0], 1, 3000, log=True),
        index=gen.pick(draw, [-2.0, -1.0, -2, -1, -1.5, -2.7, -3.5, -1.03, -1.001, -1.00005], -4, -1.001),
        vmin=vmin if diffuse else draw(st.sampled_from([0.0, 0.4])),
        vmax=None, width=width if diffuse else 0.0,
        units=[gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.LEN_UNITS),
               gen.unit(draw, gen.ANG_UNITS), gen.unit(draw, gen.ANG_UNITS)],
    )


def finish(c):
    """fill in dependent values (vmax)"""
    c["vmax"] = c["vmin"] + c["width"]
    return c


def build(c):
    from pyirf.simulations import SimulatedEventsInfo
    finish(c)
    us = c["units"]
    return SimulatedEventsInfo(
        n_showers=c["n"], energy_min=gen.q(c["e_min"], "TeV", us[0]),
        energy_max=gen.q(c["e_max"], "TeV", us[1]), max_impact=gen.q(c["impact"], "m", us[2]),
        spectral_index=c["index"], viewcone_min=gen.q(c["vmin"], "deg", us[3]),
        viewcone_max=gen.q(c["vmax"], "deg", us[4] if c["width"] else us[3]),
    )


def energy_fraction(c, lo, hi):
    """fraction of the showers with an energy between lo and hi (TeV)"""
    lo, hi = max(lo, c["e_min"]), min(hi, c["e_max"])
    if hi <= lo:
        return 0.0

    def integral(a, b):
        # a**k * (exp(k log(b / a)) - 1) / k, also valid for k = 0
        k, x = c["index"] + 1, math.log(b / a)
        return x if k == 0 else a**k * math.expm1(k * x) / k

    return integral(lo, hi) / integral(c["e_min"], c["e_max"])


def energy_atol(c):
    """rounding error of the fraction, differences of powers cancel for an index close to -1"""
    k = abs(c["index"] + 1)
    return 1e-11 if k == 0 else 1e-11 + 2e-15 / (min(k, 1) * math.log(c["e_max"] / c["e_min"]))


def fov_fraction(c, lo, hi):
    """fraction of the showers with an offset between lo and hi (deg)"""
    lo, hi = max(lo, c["vmin"]), min(hi, c["vmax"])
    if hi <= lo:
        return 0.0
    r = np.deg2rad
    return float((o.cone(r(hi)) - o.cone(r(lo))) / (o.cone(r(c["vmax"])) - o.cone(r(c["vmin"]))))


def energy_edges(draw, c, n_max=6, overflow=True):
    """bins inside, outside, around the simulated range; also the limits itself"""
    kind = draw(st.sampled_from(["inside", "around", "around", "wide", "limits"]))
    lo, hi = c["e_min"], c["e_max"]
    if kind == "inside":
        e = gen.edges(draw, lo, hi, 1, n_max, log=True)
    elif kind == "around":
        e = gen.edges(draw, lo * 0.1, hi * 10, 1, n_max, log=True)
    elif kind == "wide":
        e = [lo * 0.01, lo * 0.1, hi * 3, hi * 10][:: draw(st.sampled_from([1, 3]))]
    else:
        e = sorted({lo, hi, *gen.edges(draw, lo * 0.1, hi * 10, 1, n_max - 1, log=True)})
    if overflow and gen.rare(draw, 5):
        e = [0.0] + e
    if overflow and gen.rare(draw, 5):
        e = e + [float("inf")]
    return e


def fov_edges(draw, c, n_max=5):
    kind = draw(st.sampled_from(["zero", "inside", "around", "limits", "wide"]))
    lo, hi = c["vmin"], c["vmin"] + c["width"]
    if kind == "inside":
        return gen.edges(draw, lo, hi, 1, n_max)
    if kind == "zero":
        return [0.0] + gen.edges(draw, 0.1, hi * 1.2, 1, n_max - 1)
    if kind == "wide":
        return [0.0, hi + 1]
    e = gen.edges(draw, 0, hi * 1.5, 1, n_max)
    if kind == "limits":
        e = sorted({lo, hi, *e})
        e = [x for i, x in enumerate(e) if i == 0 or x - e[i - 1] > 1e-6]
    return e
