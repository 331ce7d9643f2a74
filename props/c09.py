import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o, sims
from harness.core import Skip, Sub

RULE = (
    "random simulated spectra and viewcones (also with a hole) and energy, offset / position angle"
    " resp. longitude / latitude bins of different widths, numbers and units, inside of, outside of"
    " and crossing the limits of the viewcone; non-trivial: different numbers of bins on the axes or"
    " at least one bin crossing the limit of the viewcone"
)


@st.composite
def polar_case(draw):
    c = draw(sims.sim_info(diffuse=True))
    full = draw(st.booleans())
    pa = gen.edges(draw, 10, 350, 1, 5)
    if full:
        pa = [0.0] + pa[1:-1] + [360.0]
    return dict(sim=c, e_edges=sims.energy_edges(draw, c, 4), edges=sims.fov_edges(draw, c, 4),
                pa=pa, units=[gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.ANG_UNITS),
                              gen.unit(draw, gen.ANG_UNITS)])


def polar(case):
    c = case["sim"]
    info = sims.build(c)
    ee, fe, pa = case["e_edges"], case["edges"], case["pa"]
    us = case["units"]
    n = info.calculate_n_showers_3d_polar(
        gen.q(ee, "TeV", us[0]), gen.q(fe, "deg", us[1]), gen.q(pa, "deg", us[2]))
    a = np.array([sims.energy_fraction(c, x, y) for x, y in zip(ee[:-1], ee[1:])])
    b = np.array([sims.fov_fraction(c, x, y) for x, y in zip(fe[:-1], fe[1:])])
    p = np.diff(pa) / 360
    o.close(n, c["n"] * a[:, None, None] * b[None, :, None] * p[None, None, :],
            "showers per energy, offset and position angle", rtol=1e-8, atol=(1e-10 + sims.energy_atol(c)) * c["n"])
    if pa[0] == 0 and pa[-1] == 360:
        o.close(np.sum(o.value(n, None, "n"), axis=2),
                info.calculate_n_showers_per_energy_and_fov(gen.q(ee, "TeV", us[0]), gen.q(fe, "deg", us[1])),
                "sum over position angle", rtol=1e-8, atol=(1e-10 + sims.energy_atol(c)) * c["n"])
    return ["full circle" if pa[0] == 0 else "part"], len(set(map(len, (ee, fe, pa)))) > 1


@st.composite
def lonlat_case(draw):
    c = draw(sims.sim_info(diffuse=True))
    vmax = c["vmin"] + c["width"]

    # finer bins than the viewcone on both axes
    fine = gen.rare(draw, 25)

    def axis():
        if fine:
            return gen.edges(draw, -1.1 * vmax, 1.1 * vmax, 16, 22)
        kind = draw(st.sampled_from(["cover", "cover", "inner", "shifted", "outside"]))
        if kind == "cover":
            inner = gen.edges(draw, -vmax, vmax, 1, 5)
            return [-1.1 * vmax] + [x for x in inner if abs(x) < vmax * 0.999] + [1.1 * vmax]
        if kind == "inner":
            return gen.edges(draw, -vmax * 0.6, vmax * 0.6, 1, 4)
        if kind == "shifted":
            return gen.edges(draw, -vmax * 0.3, vmax * 1.7, 1, 4)
        return gen.edges(draw, vmax * 1.05, vmax * 2, 1, 3)

    return dict(sim=c, e_edges=sims.energy_edges(draw, c, 3), lon=axis(), lat=axis(),
                subpixels=draw(st.sampled_from(["default", 1, 2, 7, 20, 30])),
                units=[gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.ANG_UNITS),
                       gen.unit(draw, gen.ANG_UNITS)])


def centers(a, b, n):
    return a + (b - a) * (np.arange(n) + 0.5) / n


def lonlat(case):
    c = case["sim"]
    info = sims.build(c)
    ee, lon, lat = case["e_edges"], case["lon"], case["lat"]
    us = case["units"]
    kw = {} if case["subpixels"] == "default" else {"subpixels": case["subpixels"]}
    sub = kw.get("subpixels", 20)
    n = info.calculate_n_showers_3d_lonlat(
        gen.q(ee, "TeV", us[0]), gen.q(lon, "deg", us[1]), gen.q(lat, "deg", us[2]), **kw)
    n = o.value(n, None, "number of showers")
    shape = (len(ee) - 1, len(lon) - 1, len(lat) - 1)
    o.shape_is(n, shape, "showers per energy, longitude and latitude")

    r = np.deg2rad
    view = o.cone(r(c["vmax"])) - o.cone(r(c["vmin"]))
    low, high = np.zeros(shape[1:]), np.zeros(shape[1:])
    crossing = 0
    for i in range(shape[1]):
        for j in range(shape[2]):
            # the part of the bin in the viewcone, from the centers of the subpixels
            x, y = np.meshgrid(centers(lon[i], lon[i + 1], sub), centers(lat[j], lat[j + 1], sub),
                               indexing="ij")
            sep = np.rad2deg(o.separation(r(x), r(y), 0, 0))
            # a center exactly on the limit can be on either side
            tol = 1e-9
            sure = np.mean((sep < c["vmax"] - tol) & ((sep > c["vmin"] + tol) | (c["vmin"] == 0)))
            maybe = np.mean((sep < c["vmax"] + tol) & (sep > c["vmin"] - tol))
            area = (r(lon[i + 1]) - r(lon[i])) * (np.sin(r(lat[j + 1])) - np.sin(r(lat[j])))
            low[i, j], high[i, j] = sure * area / view, maybe * area / view
            crossing += 0 < maybe < 1
    e = np.array([sims.energy_fraction(c, a, b) for a, b in zip(ee[:-1], ee[1:])])
    tol, atol = 1e-8, (1e-10 + sims.energy_atol(c)) * c["n"]
    lo = c["n"] * e[:, None, None] * low * (1 - tol) - atol
    hi = c["n"] * e[:, None, None] * high * (1 + tol) + atol
    ok = (n >= lo) & (n <= hi)
    if not np.all(ok):
        k = tuple(int(v) for v in np.argwhere(~ok)[0])
        o.fail(f"showers in bin {k}: {n[k]}, expected {lo[k]} to {hi[k]}")
    cover = (lon[0] <= -c["vmax"] and lon[-1] >= c["vmax"] and lat[0] <= -c["vmax"]
             and lat[-1] >= c["vmax"] and min(ee) <= c["e_min"] and max(ee) >= c["e_max"])
    if cover and sub >= 20 and max(np.diff(lon).max(), np.diff(lat).max()) < 0.8 * c["width"]:
        o.close(np.sum(n), c["n"], "total number of showers", rtol=0.05)
    labels = [f"subpixels {case['subpixels']}"]
    if crossing:
        labels.append("bin crossing the viewcone")
    if shape[1] != shape[2]:
        labels.append("n_lon != n_lat")
    if cover:
        labels.append("covers everything")
    if c["vmin"] > 0:
        labels.append("hole")
    return labels, crossing > 0 or shape[1] != shape[2]


SUBS = [
    Sub("polar", polar_case(), polar, 1200, 25000, shards=3),
    Sub("lonlat", lonlat_case(), lonlat, 1400, 30000, shards=5),
]
