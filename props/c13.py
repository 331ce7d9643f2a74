import numpy as np
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.irf import psf_table

RULE = (
    "random events (also none) with true energy, offset and distance to the source, inside, outside"
    " and on edges of bins of different number and width, all units; non-trivial: at least two"
    " events of one energy / offset bin in different source offset bins"
)


@st.composite
def psf_case(draw):
    n = gen.size(draw, 25, 120, 1200)
    e = ev.axis(draw, "energy", gen.edges(draw, *gen.span(draw, *ev.ENERGY), 1, 4, log=True), log=True)
    f = ev.axis(draw, "angle", draw(st.sampled_from([[0.0, 1.0], None]))
                or [0.0] + gen.edges(draw, *gen.span(draw, (0.5, 5), (1, 90), (0.001, 0.1)), 1, 3))
    s_edges = gen.edges(draw, *gen.span(draw, (0.05, 1), (0.1, 180)), 1, 6, many=150)
    if draw(st.booleans()):
        s_edges = [0.0] + s_edges
    s = ev.axis(draw, "angle", s_edges)
    true = ev.column(draw, e, n)
    offset = ev.column(draw, f, n)
    if draw(st.booleans()) and n:
        true = [true[0] if k % 3 else x for k, x in enumerate(true)]
        offset = [offset[0] if k % 3 else x for k, x in enumerate(offset)]
    return dict(e=e, f=f, s=s, true=true, offset=offset, theta=ev.column(draw, s, n), bulk=ev.bulk(draw, n))


def psf(case):
    for k in ("true", "offset", "theta"):
        case[k] = ev.expand(case[k], case["bulk"])
    te, ee = ev.native(case["e"], case["true"])
    fo, fe = ev.native(case["f"], case["offset"])
    th, se = ev.native(case["s"], case["theta"])
    t = QTable()
    t["theta"] = ev.data(case["s"], case["theta"])
    t["true_energy"] = ev.data(case["e"], case["true"])
    t["reco_energy"] = 0.7 * t["true_energy"]
    t["true_source_fov_offset"] = ev.data(case["f"], case["offset"])
    t["reco_source_fov_offset"] = 2 * t["true_source_fov_offset"] + 0.1 * u.deg
    p = psf_table(t, true_energy_bins=ev.bins(case["e"]), source_offset_bins=ev.bins(case["s"]),
                  fov_offset_bins=ev.bins(case["f"]))
    counts = o.hist_nd([te, fo, th], [ee, fe, se])
    o.shape_is(p, counts.shape, "psf")
    p = o.value(p, "sr-1", "psf")
    solid = np.diff(o.cone(np.deg2rad(case["s"]["edges"])))
    norm = counts.sum(axis=2, keepdims=True)
    exp = np.divide(counts, norm, out=np.zeros_like(counts), where=norm > 0) / solid
    o.close(p, exp, "psf", rtol=1e-6)
    o.close((p * solid).sum(axis=2), (norm[:, :, 0] > 0).astype(float), "integral over solid angle",
            rtol=1e-6)
    labels = []
    if len(set(counts.shape)) == 3:
        labels.append("all axes of different size")
    if (norm == 0).any():
        labels.append("empty bin")
    if counts.sum() < len(te):
        labels.append("events outside")
    if not len(te):
        labels.append("empty")
    return labels, bool(((counts > 0).sum(axis=2) > 1).any())


SUBS = [Sub("psf", psf_case(), psf, 3600, 70000, shards=8)]
