import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.binning import (
    OVERFLOW_INDEX, UNDERFLOW_INDEX, add_overflow_bins, calculate_bin_indices,
)

RULE = (
    "strictly increasing edges (uniform, logarithmic, random widths, optionally with"
    " under-/overflow bins at 0, -inf, inf), data inside, outside, exactly on edges and"
    " one ulp next to them, nan, +-inf, several dtypes, shapes, memory layouts and units;"
    " non-trivial: at least one value inside of the bins and one outside or exactly on an"
    " edge"
)

UNITS = {"energy": gen.E_UNITS, "angle": gen.ANG_UNITS, "none": [None]}


@st.composite
def assign_case(draw):
    kind = draw(st.sampled_from(["energy", "angle", "none"]))
    lo, hi, log = {"energy": (0.01, 100, True), "angle": (-5, 5, False), "none": (-3, 10, False)}[kind]
    e = gen.edges(draw, lo, hi, 1, 12, log=log, many=400)
    data_unit, bins_unit = gen.unit_pair(draw, UNITS[kind])
    overflow = draw(st.sampled_from(["no", "no", "positive", "all"]))
    specials = gen.around(e) if data_unit == bins_unit else []
    if gen.rare(draw, 4):
        specials = specials + [float("nan"), float("inf"), -float("inf"), 0.0, -1e30, 1e30]
    n = gen.size(draw, 12, 80, 1500)
    w = (e[-1] - e[0]) * 0.3
    data = gen.floats(draw, n, e[0] - w, e[-1] + w, specials)
    return dict(
        kind=kind, edges=e, data_unit=data_unit, bins_unit=bins_unit,
        overflow=overflow, data=data, bulk=ev.tile(draw, n, 60),
        dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
        layout=draw(st.sampled_from(["c", "c", "strided", "readonly"])),
        ndim=draw(st.sampled_from([1, 1, 1, 2])),
    )


def make(values, unit, base, dtype="f8", layout="c"):
    values = np.array(values, dtype=float)
    if dtype == "i8":
        values = np.clip(np.nan_to_num(np.round(values)), -1e12, 1e12)
    if unit is None:
        return gen.weave(values, dtype, layout)
    quantity = gen.q(values, base, unit)
    if dtype == "f4":
        quantity = u.Quantity(quantity.value.astype("f4"), unit, dtype="f4")
    return u.Quantity(gen.weave(quantity.value, quantity.dtype, layout), quantity.unit,
                      copy=False, dtype=quantity.dtype)


def assign(case):
    base = {"energy": "TeV", "angle": "deg", "none": None}[case["kind"]]
    case["data"] = ev.expand(case["data"], case.get("bulk"))
    data = make(case["data"], case["data_unit"], base, case["dtype"], case["layout"])
    bins = make(case["edges"], case["bins_unit"], base)
    if case["overflow"] != "no":
        bins = add_overflow_bins(bins, positive=case["overflow"] == "positive")
    if case["ndim"] == 2 and len(data) % 2 == 0:
        data = data.reshape(2, -1)

    e = np.asarray(bins.to_value(case["data_unit"]) if case["data_unit"] else bins, float)
    d = np.asarray(data.value if case["data_unit"] else data, float)
    if case["data_unit"] != case["bins_unit"] and gen.ambiguous(d, e):
        raise Skip

    d0, b0 = d.copy(), e.copy()
    idx, valid = calculate_bin_indices(data, bins)
    o.shape_is(idx, data.shape, "bin index")
    o.shape_is(valid, data.shape, "valid")
    o.check(np.asarray(valid).dtype == bool, "valid is not boolean")
    o.check(np.issubdtype(np.asarray(idx).dtype, np.integer), "indices are not integers")
    n = len(e) - 1
    exp_idx = o.bins_of(d, e).astype(np.int64)
    exp_valid = (exp_idx >= 0) & (exp_idx < n)
    exp_idx[exp_idx == -1] = UNDERFLOW_INDEX
    exp_idx[exp_idx == n] = OVERFLOW_INDEX
    o.same(idx, exp_idx, "bin index")
    o.same(valid, exp_valid, "valid")
    o.same(np.asarray(data.value if case["data_unit"] else data, float), d0, "data after call")
    o.same(np.asarray(bins.to_value(case["data_unit"]) if case["data_unit"] else bins, float),
           b0, "bins after call")
    if case["overflow"] == "all":
        o.check(np.all(exp_valid | np.isnan(d) | (d == np.inf)),
                "value not covered by bins with over- and underflow")

    labels = [case["kind"], "overflow:" + case["overflow"], "dtype:" + case["dtype"]]
    on_edge = bool(np.isin(d, e).any())
    if on_edge:
        labels.append("value on edge")
    if (~exp_valid).any():
        labels.append("value outside")
    if case["data_unit"] != case["bins_unit"]:
        labels.append("different units")
    if d.size == 0:
        labels.append("empty")
    return labels, bool(exp_valid.any() and ((~exp_valid).any() or on_edge))


@st.composite
def type_case(draw):
    return dict(
        edges=gen.edges(draw, 0.1, 10, 1, 5), data=gen.floats(draw, draw(st.integers(1, 5)), 0, 11),
        unit=draw(st.sampled_from(gen.E_UNITS + gen.ANG_UNITS)),
        other=draw(st.sampled_from(["m", "s", "kg"])),
    )


def types(case):
    data = u.Quantity(case["data"], case["unit"])
    o.raises(TypeError, calculate_bin_indices, data, np.array(case["edges"]),
             what="quantity with bins without unit")
    o.raises(u.UnitConversionError, calculate_bin_indices, data,
             u.Quantity(case["edges"], case["other"]), what="incompatible unit")
    return [], True


SUBS = [
    Sub("assign", assign_case(), assign, 6400, 120000, shards=8),
    Sub("types", type_case(), types, 60, 1000),
]
