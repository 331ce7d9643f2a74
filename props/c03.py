import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.binning import add_overflow_bins, create_histogram_table

RULE = (
    "event tables with none to >1000 events, values inside, outside and exactly on edges of"
    " the bins, optional weights (also zero and negative) and particle types, different units,"
    " column names and column types; non-trivial: at least two bins and two different bins or"
    " particle types are filled"
)


@st.composite
def hist_case(draw):
    log = draw(st.booleans())
    e = gen.edges(draw, *gen.span(draw, (0.01, 100), (1e-6, 1e6), (1e-5, 1e-3)), 1, 8, log=log, many=300)
    data_unit, bins_unit = gen.unit_pair(draw, gen.E_UNITS)
    n = gen.size(draw, 12, 80, 1500)
    specials = gen.around(e) if data_unit == bins_unit else []
    case = dict(
        edges=e, data_unit=data_unit, bins_unit=bins_unit,
        data=gen.floats(draw, n, e[0] * 0.5, e[-1] * 1.2, specials, log=log),
        overflow=draw(st.sampled_from(["no", "no", "positive", "all"])),
        key=draw(st.sampled_from([None, "reco_energy", "true_energy", "x"])),
        weights=None, types=None,
        # particle names are not sorted and include prefixes of each other
        names=draw(st.permutations(["gamma", "proton", "electron", "p", "weighted_x", "", "Gamma 2", "nitrogen", " n_nuclei "]))[
            : draw(st.integers(1, 4))],
        plain=gen.rare(draw, 4),
        weight_kind=draw(st.sampled_from(["f8", "f4", "i8", "dimensionless", "percent"])),
        extra=draw(st.booleans()), bulk=ev.bulk(draw, n),
    )
    if draw(st.booleans()):
        case["weights"] = gen.weights(draw, n, 0, 5, [0.0, 1.0, 1e-6, 1e6, -1.0])
    if draw(st.booleans()):
        case["types"] = gen.ints(draw, n, 0, len(case["names"]) - 1)
    return case


def histogram(case):
    for k in ("data", "weights", "types"):
        if case[k] is not None:
            case[k] = ev.expand(case[k], case["bulk"])
    n = len(case["data"])
    key = case["key"] or "reco_energy"
    t = QTable()
    if case["extra"]:
        t["other"] = np.arange(n)
        if key != "reco_energy":
            t["reco_energy"] = np.full(n, 1e9) * u.TeV
    if case["plain"]:
        t[key] = np.array(case["data"])
        bins = np.array(case["edges"])
        unit = None
    else:
        t[key] = gen.q(case["data"], "TeV", case["data_unit"])
        bins = gen.q(case["edges"], "TeV", case["bins_unit"])
        unit = case["data_unit"]
    if case["overflow"] != "no":
        bins = add_overflow_bins(bins, positive=case["overflow"] == "positive")
    weights = None
    if case["weights"] is not None:
        w = np.array(case["weights"])
        if case["weight_kind"] in ("f4", "i8"):
            w = np.round(w).astype(case["weight_kind"])
        if case["weight_kind"] in ("dimensionless", "percent"):
            t["weight"] = u.Quantity(w, u.one).to(u.percent if case["weight_kind"] == "percent" else u.one)
            w = t["weight"].to_value(u.one)
        else:
            t["weight"] = w
        weights = np.asarray(w, float)
    types = None
    if case["types"] is not None:
        types = np.array(case["names"])[case["types"]] if n else np.array([], dtype="U8")
        t["particle_type"] = types

    d = np.asarray(t[key].to_value(unit) if unit else t[key], float)
    e = np.asarray(bins.to_value(unit) if unit else bins, float)
    if unit and case["bins_unit"] != case["data_unit"] and gen.ambiguous(d, e):
        raise Skip

    colnames = list(t.colnames)
    args = {} if case["key"] is None else {"key": key}
    h = create_histogram_table(t, bins, **args)

    n_bins = len(e) - 1
    o.check(isinstance(h, QTable), f"result is {type(h)}")
    o.check(len(h) == n_bins, f"{len(h)} rows, expected {n_bins}")
    bu = case["bins_unit"] if unit else None
    eb = np.asarray(bins.to_value(bu) if bu else bins, float)
    o.close(h[f"{key}_low"], eb[:-1], "low", rtol=1e-12, unit=bu)
    o.close(h[f"{key}_high"], eb[1:], "high", rtol=1e-12, unit=bu)
    o.centers(h[f"{key}_center"], eb, "center", unit=bu)

    scale = 1 + (np.sum(np.abs(weights)) if weights is not None else 0)
    expected = {"n": o.hist(d, e)}
    expected["n_weighted"] = o.hist(d, e, weights)
    if types is not None and n > 0:
        for name in set(types.tolist()):
            m = types == name
            expected[f"n_{name}"] = o.hist(d[m], e)
            expected[f"n_{name}_weighted"] = o.hist(
                d[m], e, weights[m] if weights is not None else None)
    for col, exp in expected.items():
        o.check(col in h.colnames, f"column {col} is missing")
        if col.endswith("_weighted") and weights is not None:
            # sums of this precision, numpy subtracts cumulative sums of all weights
            rtol = (6e-8 if case["weight_kind"] == "f4" else 4e-16) * (n + 1) + 1e-12
            o.close(h[col], exp, col, rtol=rtol, scale=scale)
        else:
            o.same(np.asarray(u.Quantity(h[col]).value), exp, col)
    surplus = set(h.colnames) - set(expected) - {f"{key}_{k}" for k in ("low", "high", "center")}
    o.check(not surplus, f"unexpected columns {surplus}")
    o.check(t.colnames == colnames, "columns of the events were changed")
    o.same(np.asarray(t[key].to_value(unit) if unit else t[key], float), d, "events after call")

    filled = int((expected["n"] > 0).sum())
    labels = []
    if n == 0:
        labels.append("empty")
    if weights is not None:
        labels.append("weights")
    if types is not None:
        labels.append(f"{len(set(types.tolist()))} particle types")
    if np.isin(d, e).any():
        labels.append("value on edge")
    if expected["n"].sum() < n:
        labels.append("events outside")
    if unit and case["bins_unit"] != case["data_unit"]:
        labels.append("different units")
    return labels, n_bins > 1 and (filled > 1 or (types is not None and len(set(types.tolist())) > 1))


SUBS = [Sub("histogram", hist_case(), histogram, 3200, 80000, shards=8)]
