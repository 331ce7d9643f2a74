import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.irf import energy_dispersion
from pyirf.irf.energy_dispersion import energy_migration_matrix

RULE = (
    "random events with true and reconstructed energy (also outside of the bins and exactly on"
    " edges) and offset, different numbers of bins with different widths on each axis and units for"
    " each column and axis; non-trivial: at least two events of one true energy / offset bin in"
    " different migration bins"
)


@st.composite
def case_strategy(draw):
    n = gen.size(draw, 25, 120, 1200)
    lo, hi = gen.span(draw, *ev.ENERGY)
    e_axis = ev.axis(draw, "energy", gen.edges(draw, lo, hi, 1, 5, log=True, many=30), log=True)
    r_axis = ev.axis(draw, "energy", gen.edges(draw, lo / 2, hi * 2, 1, 6, log=True), log=True)
    f_axis = ev.axis(draw, "angle", draw(st.sampled_from([[0.0, 1.0], None]))
                     or [0.0] + gen.edges(draw, *gen.span(draw, (0.5, 5), (1, 90), (0.001, 0.1)), 1, 3))
    migra = gen.edges(draw, *gen.span(draw, (0.2, 5), (0.01, 100)), 1, 8, log=draw(st.booleans()), many=150)
    return dict(
        e=e_axis, r=r_axis, f=f_axis, migra=migra, overflow=gen.rare(draw, 6),
        true=ev.column(draw, e_axis, n), offset=ev.column(draw, f_axis, n),
        # relative deviation, partially outside of the migration bins
        mu=gen.floats(draw, n, 0.1, 6, log=True),
        reco=ev.column(draw, r_axis, n), use_reco=draw(st.booleans()),
        # put the events in few bins to have several events in each
        focus=draw(st.booleans()), bulk=ev.bulk(draw, n),
    )


def build(case):
    for k in ("true", "offset", "mu", "reco"):
        case[k] = ev.expand(case[k], case["bulk"])
    true = list(case["true"])
    n = len(true)
    if case["focus"] and n:
        e = case["e"]["edges"]
        true = [true[0] if k % 3 else x for k, x in enumerate(true)]
        case["offset"] = [case["offset"][0] if k % 3 else x for k, x in enumerate(case["offset"])]
    t = QTable()
    t["true_energy"] = ev.data(case["e"], true)
    if case["use_reco"]:
        reco = np.array(case["reco"])
    else:
        reco = np.array(true) * np.array(case["mu"])
    t["reco_energy"] = ev.data(case["r"], reco)
    t["true_source_fov_offset"] = ev.data(case["f"], case["offset"])
    t["reco_source_fov_offset"] = ev.data(case["f"], np.array(case["offset"]) + 0.77)
    return t, true, reco


def dispersion(case):
    t, true, reco = build(case)
    te, ee = ev.native(case["e"], true)
    fo, fe = ev.native(case["f"], case["offset"])
    migra = np.array(case["migra"])
    if case["overflow"]:
        migra = np.append(0, migra)
    mu = (t["reco_energy"].to_value("TeV") / t["true_energy"].to_value("TeV"))
    if gen.ambiguous(mu, migra):
        raise Skip
    d = energy_dispersion(t, true_energy_bins=ev.bins(case["e"]), fov_offset_bins=ev.bins(case["f"]),
                          migration_bins=migra.copy())
    counts = o.hist_nd([te, mu, fo], [ee, migra, fe])
    d = o.value(d, None, "energy dispersion")
    o.shape_is(d, counts.shape, "energy dispersion")
    norm = counts.sum(axis=1, keepdims=True)
    width = np.diff(migra)
    exp = np.divide(counts, norm, out=np.zeros_like(counts), where=norm > 0) / width[None, :, None]
    o.close(d, exp, "energy dispersion", rtol=1e-9)
    integral = np.sum(d * width[None, :, None], axis=1)
    o.close(integral, (norm[:, 0, :] > 0).astype(float), "integral over migration", rtol=1e-9)
    return label(case, counts)


def label(case, counts):
    per = (counts > 0).sum(axis=1)
    labels = []
    if len(set(counts.shape)) == 3:
        labels.append("all axes of different size")
    if (counts.sum(axis=1) == 0).any():
        labels.append("empty true energy / offset bin")
    if counts.sum() < len(case["true"]):
        labels.append("events outside")
    if not case["true"]:
        labels.append("empty")
    return labels, bool((per > 1).any())


def migration(case):
    t, true, reco = build(case)
    te, ee = ev.native(case["e"], true)
    re, rb = ev.native(case["r"], reco)
    fo, fe = ev.native(case["f"], case["offset"])
    m = energy_migration_matrix(t, ev.bins(case["e"]), ev.bins(case["r"]), ev.bins(case["f"]))
    counts = o.hist_nd([te, re, fo], [ee, rb, fe])
    m = o.value(m, None, "migration matrix")
    norm = counts.sum(axis=1, keepdims=True)
    exp = np.divide(counts, norm, out=np.zeros_like(counts), where=norm > 0)
    o.close(m, exp, "migration matrix", rtol=1e-9)
    o.close(m.sum(axis=1), (norm[:, 0, :] > 0).astype(float), "sum over reconstructed energy", rtol=1e-9)
    return label(case, counts)


SUBS = [
    Sub("dispersion", case_strategy(), dispersion, 2400, 50000, shards=5),
    Sub("migration", case_strategy(), migration, 1600, 30000, shards=3),
]
