import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o, sims
from harness.core import Skip, Sub
from pyirf import irf
from pyirf.spectral import PowerLaw, calculate_event_weights

RULE = (
    "random simulated spectra / viewcones and random selected events inside, outside and on edges of"
    " the bins for the effective area in energy, energy and offset, polar and lon / lat bins, all"
    " units and different numbers of bins; non-trivial: at least two events in different bins"
)


@st.composite
def area_case(draw):
    kind = draw(st.sampled_from(["energy", "fov", "polar", "lonlat"]))
    c = draw(sims.sim_info(diffuse=None if kind == "energy" else True))
    n = gen.size(draw, 15, 80, 1200)
    e = gen.edges(draw, c["e_min"], c["e_max"], 1, 5, log=True, many=60)
    if gen.rare(draw, 4):
        e = [c["e_min"] * 0.5] + e
    axes = [ev.axis(draw, "energy", e, log=True)]
    vmax = c["vmin"] + c["width"]
    if kind in ("fov", "polar"):
        f = gen.edges(draw, c["vmin"], vmax, 1, 4)
        axes.append(ev.axis(draw, "angle", f))
    if kind == "polar":
        axes.append(ev.axis(draw, "angle", gen.edges(draw, *gen.span(draw, (0, 360), (-180, 180), (-360, 0)), 1, 4)))
    if kind == "lonlat":
        s = draw(st.sampled_from([0.6, 1.2]))
        axes.append(ev.axis(draw, "angle", gen.edges(draw, -s * vmax, s * vmax, 1, 4)))
        axes.append(ev.axis(draw, "angle", gen.edges(draw, -s * vmax, s * vmax, 1, 4)))
    return dict(kind=kind, sim=c, axes=axes, columns=[ev.column(draw, a, n) for a in axes],
                subpixels=draw(st.sampled_from([None, 3, 10])), many=draw(st.sampled_from([1, 7, 1000, 10**9])),
                bulk=ev.bulk(draw, n))


COLUMNS = {
    "energy": ["true_energy"],
    "fov": ["true_energy", "true_source_fov_offset"],
    "polar": ["true_energy", "true_source_fov_offset", "true_source_fov_position_angle"],
    "lonlat": ["true_energy", "true_source_fov_lon", "true_source_fov_lat"],
}


def area(case):
    case["columns"] = [ev.expand(x, case["bulk"]) for x in case["columns"]]
    c = case["sim"]
    info = sims.build(c)
    kind = case["kind"]
    t = QTable()
    # columns which are not used here, but must not be used instead of the true ones
    n = len(case["columns"][0])
    t["reco_energy"] = np.full(n, 1.2345) * u.TeV
    t["reco_source_fov_offset"] = np.full(n, 0.123) * u.deg
    t["weight"] = np.full(n, 3.0)
    values, edges, bins = [], [], []
    for name, ax, col in zip(COLUMNS[kind], case["axes"], case["columns"]):
        t[name] = ev.data(ax, col)
        d, e = ev.native(ax, col)
        values.append(d)
        edges.append(e)
        bins.append(ev.bins(ax))
    selected = o.hist_nd(values, edges)

    kw = {}
    if kind == "energy":
        a = irf.effective_area_per_energy(t, info, bins[0])
        sim = info.calculate_n_showers_per_energy(bins[0])
        ref = [c["n"] * sims.energy_fraction(c, x, y) for x, y in zip(case["axes"][0]["edges"][:-1],
                                                                     case["axes"][0]["edges"][1:])]
    elif kind == "fov":
        a = irf.effective_area_per_energy_and_fov(t, info, *bins)
        sim = info.calculate_n_showers_per_energy_and_fov(*bins)
    elif kind == "polar":
        a = irf.effective_area_3d_polar(t, info, *bins)
        sim = info.calculate_n_showers_3d_polar(*bins)
    else:
        kw = {} if case["subpixels"] is None else {"subpixels": case["subpixels"]}
        a = irf.effective_area_3d_lonlat(t, info, *bins, **kw)
        sim = info.calculate_n_showers_3d_lonlat(*bins, **kw)
    if kind in ("fov", "polar"):
        ea, fa = case["axes"][0]["edges"], case["axes"][1]["edges"]
        ref = c["n"] * np.outer(
            [sims.energy_fraction(c, x, y) for x, y in zip(ea[:-1], ea[1:])],
            [sims.fov_fraction(c, x, y) for x, y in zip(fa[:-1], fa[1:])])
        if kind == "polar":
            pa = np.array(case["axes"][2]["edges"])
            ref = ref[:, :, None] * (np.diff(pa) / 360)
    sim = o.value(sim, None, "simulated events")
    if kind != "lonlat":
        ref = np.array(ref)
        o.close(sim, ref, "simulated events", rtol=1e-6, atol=(1e-10 + sims.energy_atol(c)) * c["n"])
    total_area = np.pi * c["impact"] ** 2
    with np.errstate(all="ignore"):
        exp = selected / sim * total_area
    finite = np.isfinite(exp)
    shape = [len(ax["edges"]) - 1 for ax in case["axes"]]
    o.shape_is(a, shape, "effective area")
    got = o.value(a, "m2", "effective area")
    o.close(got[finite], exp[finite], "effective area", rtol=1e-9)
    # where events were simulated, area and expected number give the selected events
    ok = sim > 0
    o.close((got[ok] / total_area) * sim[ok], selected[ok], "selected events from the area",
            rtol=1e-9)
    if kind != "lonlat":
        ok = ref > (1e-6 + 1e6 * sims.energy_atol(c)) * c["n"]
        o.close((got[ok] / total_area) * ref[ok], selected[ok],
                "selected events from the analytic number of simulated events", rtol=1e-5)
    # direct call
    direct = irf.effective_area(selected[ok], sim[ok], gen.q(c["impact"], "m", c["units"][2]) ** 2)
    o.close(direct, selected[ok] / sim[ok] * c["impact"] ** 2, "effective_area", rtol=1e-9, unit="m2")
    # integers, scalars, an array with a scalar
    many = case["many"]
    n_sel = np.array(selected[ok] * many, dtype=np.int64)
    n_sim = np.array(np.ceil(sim[ok] * many), dtype=np.int64)
    a_sim = gen.q(c["impact"], "m", c["units"][2]) ** 2
    good = n_sim > 0
    direct = irf.effective_area(n_sel[good], n_sim[good], a_sim)
    o.close(direct, n_sel[good] / n_sim[good] * c["impact"] ** 2, "effective_area of integers", rtol=1e-9, unit="m2")
    one = irf.effective_area(n_sel[good], int(many), a_sim)
    o.close(one, n_sel[good] / many * c["impact"] ** 2, "effective_area with one number of showers", rtol=1e-9, unit="m2")
    if good.any():
        one = irf.effective_area(int(n_sel[good][0]), int(n_sim[good][0]), a_sim)
        o.shape_is(one, (), "effective_area of numbers")
        o.close(one, n_sel[good][0] / n_sim[good][0] * c["impact"] ** 2, "effective_area of numbers", rtol=1e-9, unit="m2")
    labels = [kind]
    if n == 0:
        labels.append("empty")
    if selected.sum() < n:
        labels.append("events outside")
    return labels, int((selected > 0).sum()) > 1


@st.composite
def rate_case(draw):
    c = draw(sims.sim_info())
    n = gen.size(draw, 20, 60)
    return dict(
        sim=c, energy=gen.floats(draw, n, c["e_min"], c["e_max"] * 0.999, log=True),
        edges=[c["e_min"]] + gen.edges(draw, c["e_min"] * 1.05, c["e_max"] * 0.95, 1, 4, log=True)
        + [c["e_max"]],
        obstime=draw(st.sampled_from([1.0, 50.0])),
    )


def rate(case):
    """the effective area folded with the simulated flux gives the selected events back"""
    c = case["sim"]
    info = sims.build(c)
    t = QTable({"true_energy": np.array(case["energy"]) * u.TeV})
    e = np.array(case["edges"])
    a = irf.effective_area_per_energy(t, info, e * u.TeV)
    pl = PowerLaw.from_simulation(info, case["obstime"] * u.h)
    if c["width"]:
        pl = pl.integrate_cone(info.viewcone_min, info.viewcone_max)
    x, w = np.polynomial.legendre.leggauss(40)
    expected = o.hist(case["energy"], e)
    for i in range(len(e) - 1):
        lo, hi = np.log(e[i]), np.log(e[i + 1])
        le = 0.5 * (hi - lo) * x + 0.5 * (lo + hi)
        flux = pl(np.exp(le) * u.TeV).to_value("TeV-1 m-2 s-1")
        integral = np.sum(w * flux * np.exp(le)) * 0.5 * (hi - lo)
        n = integral * a[i].to_value("m2") * case["obstime"] * 3600
        o.close(n, expected[i], f"events in energy bin {i}", rtol=1e-6, atol=1e-9)
    # reweighting to the simulated flux itself does not change anything
    one = calculate_event_weights(t["true_energy"], pl, pl)
    o.close(one, np.ones(len(t)), "weights", rtol=1e-12)
    return ["diffuse" if c["width"] else "point"], len(case["energy"]) > 1


SUBS = [
    Sub("area", area_case(), area, 3000, 60000, shards=6),
    Sub("rate", rate_case(), rate, 600, 10000, shards=2),
]
