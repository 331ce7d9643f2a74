import operator

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.binning import bin_center, calculate_bin_indices
from pyirf.cuts import compare_irf_cuts, evaluate_binned_cut, evaluate_binned_cut_by_index

RULE = (
    "random cut tables and events inside and outside of the bins, on edges and with values equal"
    " to the cut, nan values and cuts, different comparison functions, units and table columns;"
    " non-trivial: at least one event passes and at least one fails, resp. at least two tables"
    " are compared"
)

OPS = {
    "le": operator.le, "ge": operator.ge, "lt": operator.lt, "gt": operator.gt,
    "near": lambda a, b: abs(a - b) <= 0.5 * abs(b),
    # neither symmetric nor an order: true if less than half of the cut
    "half": lambda a, b: 2 * a < b,
}
SCALAR = {
    "le": lambda a, b: a <= b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b,
    "gt": lambda a, b: a > b, "near": lambda a, b: abs(a - b) <= 0.5 * abs(b),
    "half": lambda a, b: 2 * a < b,
}


@st.composite
def eval_case(draw):
    e = gen.edges(draw, *gen.span(draw, (0.1, 100), (1e-5, 1e5), (1e-6, 1e-4)), 1, 8, log=draw(st.booleans()), many=300)
    n = gen.size(draw, 12, 80, 1500)
    n_bins = len(e) - 1
    data_unit, bins_unit = gen.unit_pair(draw, gen.E_UNITS)
    val_base, units = draw(st.sampled_from([
        ("deg", gen.ANG_UNITS), ("TeV", gen.E_UNITS), ("m", gen.LEN_UNITS), ("", ["", "percent"])]))
    val_unit, cut_unit = gen.unit_pair(draw, units)
    if draw(st.booleans()):
        val_unit = cut_unit = None
    cuts = gen.floats(draw, n_bins, 0.05, 2)
    if gen.rare(draw, 8):
        cuts[draw(st.integers(0, n_bins - 1))] = float("nan")
    specials = cuts if val_unit == cut_unit else []
    vals = gen.floats(draw, n, 0, 2, specials)
    if n and gen.rare(draw, 8):
        vals[draw(st.integers(0, n - 1))] = float("nan")
    bin_values = gen.floats(draw, n, e[0] * 0.5, e[-1] * 1.2, gen.around(e) if data_unit == bins_unit else [])
    if n and gen.rare(draw, 8):
        # in no bin
        bin_values[draw(st.integers(0, n - 1))] = float("nan")
    return dict(
        val_base=val_base, edges=e, data_unit=data_unit, bins_unit=bins_unit, val_unit=val_unit, cut_unit=cut_unit,
        bin_values=bin_values, values=vals, cuts=cuts, op=draw(st.sampled_from(sorted(OPS))),
        order=draw(st.sampled_from(["lhc", "clh", "extra"])), bulk=ev.tile(draw, n, 60),
    )


def evaluate(case):
    for k in ("values", "bin_values"):
        case[k] = ev.expand(case[k], case["bulk"])
    bins = gen.q(case["edges"], "TeV", case["bins_unit"])
    bin_values = gen.q(case["bin_values"], "TeV", case["data_unit"])
    cuts, values = np.array(case["cuts"]), np.array(case["values"])
    if case["val_unit"] is not None:
        cuts = gen.q(cuts, case["val_base"], case["cut_unit"])
        values = gen.q(values, case["val_base"], case["val_unit"])
    t = QTable()
    cols = {"low": bins[:-1], "high": bins[1:], "cut": cuts, "center": bin_center(bins),
            "n_events": np.arange(len(cuts))}
    order = {"lhc": ["low", "high", "cut"], "clh": ["cut", "low", "high"],
             "extra": ["n_events", "center", "high", "low", "cut"]}[case["order"]]
    for k in order:
        t[k] = cols[k]

    d = bin_values.value
    e = bins.to_value(case["data_unit"])
    if case["data_unit"] != case["bins_unit"] and gen.ambiguous(d, e):
        raise Skip
    v = np.asarray(values, float)
    c = np.asarray(cuts.to_value(case["val_unit"]) if case["val_unit"] is not None else cuts, float)
    if case["val_unit"] != case["cut_unit"] and (
        gen.ambiguous(v, c) or gen.ambiguous(v, 0.5 * c) or gen.ambiguous(v, 1.5 * c)
    ):
        raise Skip

    exp = []
    n_out = 0
    for x, i in zip(v, o.bins_of(d, e)):
        inside = 0 <= i < len(c)
        n_out += not inside
        exp.append(bool(inside and SCALAR[case["op"]](x, c[i])))
    result = evaluate_binned_cut(values, bin_values, t, OPS[case["op"]])
    o.check(np.asarray(result).dtype == bool, "mask is not boolean")
    o.same(result, np.array(exp, dtype=bool), "mask")
    index, valid = calculate_bin_indices(bin_values, bins)
    result = evaluate_binned_cut_by_index(values, index, valid, t, OPS[case["op"]])
    o.same(result, np.array(exp, dtype=bool), "mask by index")
    o.check(t.colnames == order, "table was changed")
    o.same(np.asarray(t["cut"]), np.asarray(cuts), "cuts after call")
    o.raises(ValueError, evaluate_binned_cut, values, bin_values, Table({k: t[k] for k in order}),
             OPS[case["op"]], what="plain table")
    labels = ["op:" + case["op"]]
    if n_out:
        labels.append("outside")
    if np.isin(v, c).any():
        labels.append("value equals a cut")
    if np.isin(d, e).any():
        labels.append("on edge")
    if not len(v):
        labels.append("empty")
    return labels, any(exp) and not all(exp)


@st.composite
def compare_case(draw):
    n_tables = gen.count(draw, 1, 5, 30)
    n_bins = gen.count(draw, 1, 5, 150)
    return dict(
        n_tables=n_tables, n_bins=n_bins,
        low=gen.floats(draw, n_bins, 0.1, 10), cut=gen.floats(draw, n_bins, 0, 1),
        unit=draw(st.sampled_from([None, "deg"])),
        change=None if gen.rare(draw, 4) else [
            draw(st.integers(0, n_tables - 1)), draw(st.sampled_from(["low", "high", "cut"])),
            draw(st.sampled_from([draw(st.integers(0, n_bins - 1)), n_bins - 1])),
        ],
        rel=draw(st.sampled_from([1e-7, 0.01, 1.0])),
        sign=draw(st.sampled_from([-1, 1])),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e9])),
    )


def compare(case):
    tables = []
    for _ in range(case["n_tables"]):
        t = QTable()
        t["low"] = np.array(case["low"]) * u.TeV
        t["high"] = (np.array(case["low"]) + 1) * u.TeV
        cut = (np.array(case["cut"]) + 0.1) * case["scale"]
        t["cut"] = cut if case["unit"] is None else u.Quantity(cut, case["unit"])
        tables.append(t)
    expected = True
    if case["change"] is not None:
        i, col, k = case["change"]
        tables[i][col][k] = tables[i][col][k] * (1 + case["sign"] * case["rel"])
        expected = case["n_tables"] == 1
    result = compare_irf_cuts(tables)
    o.check(bool(result) == expected,
            f"cuts {'equal' if expected else 'different'}, but result is {result}")
    return ["equal" if expected else "different", f"{case['n_tables']} tables"], case["n_tables"] > 1


SUBS = [
    Sub("evaluate", eval_case(), evaluate, 3000, 60000, shards=6),
    Sub("compare", compare_case(), compare, 600, 10000, shards=2),
]
