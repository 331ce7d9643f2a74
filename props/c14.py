import numpy as np
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.irf import background_2d, background_3d_lonlat

RULE = (
    "random weighted events (also none, zero, large and negative weights) inside, outside and on edges of"
    " energy and offset resp. longitude / latitude bins of different number and width, all units,"
    " random observation times; non-trivial: at least two filled bins"
)


@st.composite
def bkg_case(draw):
    kind = draw(st.sampled_from(["2d", "3d"]))
    n = gen.size(draw, 20, 100, 1200)
    axes = [ev.axis(draw, "energy", gen.edges(draw, *gen.span(draw, *ev.ENERGY), 1, 4, log=True, many=100), log=True)]
    if kind == "2d":
        axes.append(ev.axis(draw, "angle", [0.0] + gen.edges(draw, *gen.span(draw, (0.5, 8), (1, 90), (0.01, 0.05)), 1, 4)))
    else:
        axes.append(ev.axis(draw, "angle", gen.edges(draw, *gen.span(draw, (-5, 5), (-180, 180)), 1, 5)))
        axes.append(ev.axis(draw, "angle", gen.edges(draw, *gen.span(draw, (-8, 8), (-90, 90)), 1, 5)))
    return dict(
        kind=kind, axes=axes, columns=[ev.column(draw, a, n) for a in axes],
        weights=gen.weights(draw, n, draw(st.sampled_from([0, 0, 0, -2])), 3, [0.0, 1.0, 1e5]),
        w_kind=draw(st.sampled_from(["plain", "f4", "i8", "quantity", "percent"])),
        t_obs=draw(st.sampled_from([1.0, 50.0, 0.2])), t_unit=gen.unit(draw, gen.TIME_UNITS),
        factor=draw(st.sampled_from([0.5, 3.0])), bulk=ev.bulk(draw, n),
    )


NAMES = {"2d": ["reco_energy", "reco_source_fov_offset"],
         "3d": ["reco_energy", "reco_source_fov_lon", "reco_source_fov_lat"]}


def background(case):
    case["columns"] = [ev.expand(x, case["bulk"]) for x in case["columns"]]
    case["weights"] = ev.expand(case["weights"], case["bulk"])
    cols, edges, bins = [], [], []
    t = QTable()
    n = len(case["columns"][0])
    t["true_energy"] = np.full(n, 0.5) * u.TeV
    t["true_source_fov_offset"] = np.full(n, 0.5) * u.deg
    for name, ax, col in zip(NAMES[case["kind"]], case["axes"], case["columns"]):
        d, e = ev.native(ax, col)
        cols.append(d)
        edges.append(e)
        bins.append(ev.bins(ax))
        t[name] = ev.data(ax, col)
    w = np.array(case["weights"])
    if case["w_kind"] in ("f4", "i8"):
        w = np.round(w).astype(case["w_kind"])
    if case["w_kind"] in ("quantity", "percent"):
        t["weight"] = u.Quantity(w, u.one).to(u.percent if case["w_kind"] == "percent" else u.one)
    else:
        t["weight"] = w
    w = np.asarray(w, float)
    func = background_2d if case["kind"] == "2d" else background_3d_lonlat
    t_obs = gen.q(case["t_obs"], "h", case["t_unit"])
    rate = func(t, *bins, t_obs=t_obs)
    counts = o.hist_nd(cols, edges, w)
    o.shape_is(rate, counts.shape, "background rate")
    de = np.diff(case["axes"][0]["edges"])
    rtol = 1e-7
    if case["kind"] == "2d":
        solid = np.diff(o.cone(np.deg2rad(case["axes"][1]["edges"])))
        volume = de[:, None] * solid[None, :]
        # rounding error of the difference of cosines
        rtol += 1e-14 / solid.min()
    else:
        lon = np.diff(np.deg2rad(case["axes"][1]["edges"]))
        lat = np.diff(np.sin(np.deg2rad(case["axes"][2]["edges"])))
        volume = de[:, None, None] * lon[None, :, None] * lat[None, None, :]
    exp = counts / volume / (case["t_obs"] * 3600)
    atol = 1e-2 * rtol * np.abs(w).sum() / volume.min() / (case["t_obs"] * 3600)
    got = o.value(rate, "s-1 TeV-1 sr-1", "background rate")
    o.close(got, exp, "background rate", rtol=rtol, atol=atol)
    o.check(np.all(got[counts == 0] == 0) or np.any(w < 0) or np.any(w > 1e4) or
            np.all(np.abs(got[counts == 0]) <= atol), "rate in a bin without events")
    # the total of the rate is the sum of the weights inside of the bins
    o.close(np.sum(got * volume) * case["t_obs"] * 3600, counts.sum(), "integrated rate",
            rtol=rtol, scale=np.abs(w).sum())
    # linear in the weights, inverse to the observation time
    t["weight"] = t["weight"] * case["factor"]
    scaled = func(t, *bins, t_obs=2 * t_obs)
    o.close(scaled, exp * case["factor"] / 2, "scaled rate", rtol=rtol, atol=atol * case["factor"],
            unit="s-1 TeV-1 sr-1")
    filled = int((counts > 0).sum())
    labels = [case["kind"]]
    if case["kind"] == "3d" and counts.shape[1] != counts.shape[2]:
        labels.append("n_lon != n_lat")
    if not n:
        labels.append("empty")
    return labels, filled > 1


SUBS = [Sub("background", bkg_case(), background, 3600, 70000, shards=8)]
