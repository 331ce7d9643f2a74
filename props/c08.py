import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o, sims
from harness.core import Skip, Sub
from pyirf.simulations import SimulatedEventsInfo

RULE = (
    "random simulated power laws (also with index -1), viewcones (also with a hole) and units;"
    " energy and offset bins inside of, outside of, around, much wider than and exactly at the"
    " limits of the simulated range, also with 0 and infinity; non-trivial: some bins are partially"
    " outside of the simulated range, or at least two bins"
)


@st.composite
def energy_case(draw):
    c = draw(sims.sim_info(wide=True))
    return dict(sim=c, edges=sims.energy_edges(draw, c, 8), unit=gen.unit(draw, gen.E_UNITS),
                split=gen.fractions(draw, 1)[0])


def energy(case):
    c = case["sim"]
    info = sims.build(c)
    e = case["edges"]
    bins = gen.q(e, "TeV", case["unit"])
    n = info.calculate_n_showers_per_energy(bins)
    exp = np.array([c["n"] * sims.energy_fraction(c, a, b) for a, b in zip(e[:-1], e[1:])])
    o.close(n, exp, "showers per energy", rtol=1e-8, atol=sims.energy_atol(c) * c["n"])
    o.check(np.all(np.asarray(n) >= 0), "negative number of showers")
    for i, (a, b) in enumerate(zip(e[:-1], e[1:])):
        # bins clearly outside are exactly empty
        if b < c["e_min"] * (1 - 1e-9) or a > c["e_max"] * (1 + 1e-9):
            o.check(np.asarray(n)[i] == 0, f"bin outside has {np.asarray(n)[i]} showers")
    if e[0] <= c["e_min"] and e[-1] >= c["e_max"]:
        o.close(np.sum(n), c["n"], "total number of showers", rtol=1e-8)
    # splitting a bin conserves the number
    a, b = e[0], min(e[1], 1e6)
    mid = a + (b - a) * (0.05 + 0.9 * case["split"])
    two = info.calculate_n_showers_per_energy(gen.q([a, mid, b], "TeV", case["unit"]))
    one = info.calculate_n_showers_per_energy(gen.q([a, b], "TeV", case["unit"]))
    o.close(np.sum(two), np.asarray(one)[0], "sum of a split bin", rtol=1e-8, atol=sims.energy_atol(c) * c["n"])
    # wrong type
    o.raises(u.UnitsError, info.calculate_n_showers_per_energy, [1, 2] * u.m, what="bins in m")
    partial = any(a < lim < b for a, b in zip(e[:-1], e[1:]) for lim in (c["e_min"], c["e_max"]))
    labels = [f"index {float(c['index'])}"] + (["partial bin"] if partial else [])
    if any(a < c["e_min"] and b > c["e_max"] for a, b in zip(e[:-1], e[1:])):
        labels.append("bin wider than the simulated range")
    return labels, partial or len(e) > 2


@st.composite
def fov_case(draw):
    c = draw(sims.sim_info(diffuse=True, wide=True))
    return dict(sim=c, edges=sims.fov_edges(draw, c, 7), unit=gen.unit(draw, gen.ANG_UNITS),
                e_edges=sims.energy_edges(draw, c, 4), e_unit=gen.unit(draw, gen.E_UNITS))


def fov(case):
    c = case["sim"]
    info = sims.build(c)
    e = case["edges"]
    bins = gen.q(e, "deg", case["unit"])
    n = info.calculate_n_showers_per_fov(bins)
    frac = np.array([sims.fov_fraction(c, a, b) for a, b in zip(e[:-1], e[1:])])
    o.close(n, c["n"] * frac, "showers per offset", rtol=1e-8, atol=1e-10 * c["n"])
    if e[0] <= c["vmin"] and e[-1] >= c["vmax"]:
        o.close(np.sum(n), c["n"], "total number of showers", rtol=1e-8)
    for i, (a, b) in enumerate(zip(e[:-1], e[1:])):
        if b < c["vmin"] - 1e-9 or a > c["vmax"] + 1e-9:
            o.check(np.asarray(n)[i] == 0, f"bin outside has {np.asarray(n)[i]} showers")

    ee = case["e_edges"]
    both = info.calculate_n_showers_per_energy_and_fov(gen.q(ee, "TeV", case["e_unit"]), bins)
    e_frac = np.array([sims.energy_fraction(c, a, b) for a, b in zip(ee[:-1], ee[1:])])
    o.close(both, c["n"] * np.outer(e_frac, frac), "showers per energy and offset", rtol=1e-8,
            atol=(1e-10 + sims.energy_atol(c)) * c["n"])
    partial = any(a < lim < b for a, b in zip(e[:-1], e[1:]) for lim in (c["vmin"], c["vmax"]))
    return (["hole"] if c["vmin"] > 0 else []) + (["partial bin"] if partial else []), \
        partial or len(e) > 2


@st.composite
def invalid_case(draw):
    return dict(sim=draw(sims.sim_info(diffuse=False)),
                index=draw(st.sampled_from([-0.999, -0.5, 0.0, 1.0, 2.7])),
                edges=[0.0] + gen.edges(draw, 0.1, 5, 1, 3))


def invalid(case):
    c = case["sim"]
    info = sims.build(c)
    # point-like simulations have no distribution in the field of view
    o.raises(ValueError, info.calculate_n_showers_per_fov, np.array(case["edges"]) * u.deg,
             what="point-like simulation")
    kw = dict(n_showers=c["n"], energy_min=c["e_min"] * u.TeV, energy_max=c["e_max"] * u.TeV,
              max_impact=c["impact"] * u.m, spectral_index=c["index"], viewcone_min=0 * u.deg,
              viewcone_max=1 * u.deg)
    SimulatedEventsInfo(**kw)
    o.raises(ValueError, SimulatedEventsInfo, what="index > -1", **{**kw, "spectral_index": case["index"]})
    for k in ("energy_min", "energy_max", "max_impact", "viewcone_min", "viewcone_max"):
        o.raises(u.UnitsError, SimulatedEventsInfo, what=f"unit of {k}", **{**kw, k: 1 * u.s})
    return [], True


SUBS = [
    Sub("energy", energy_case(), energy, 2400, 50000, shards=5),
    Sub("fov", fov_case(), fov, 1600, 30000, shards=4),
    Sub("invalid", invalid_case(), invalid, 100, 1000),
]
