import math

import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.cuts import calculate_percentile_cut

RULE = (
    "random values in random bins (empty bins, bins with less than and exactly the minimum number"
    " of events, events outside, on edges, nan values), one or several percentiles in any order,"
    " clipping, smoothing and units for all quantities; non-trivial: at least one bin with a"
    " percentile of at least two events"
)


@st.composite
def cut_case(draw):
    e = gen.edges(draw, *gen.span(draw, (0.1, 100), (1e-5, 1e5), (1e-6, 1e-4)), 1, 8, log=draw(st.booleans()), many=150)
    n = gen.size(draw, 30, 120, 1200)
    val_kind = draw(st.sampled_from(["angle", "none"]))
    bin_kind = draw(st.sampled_from(["energy", "none"]))
    bin_units = gen.unit_pair(draw, gen.E_UNITS) if bin_kind == "energy" else (None, None)
    val_unit, arg_unit = gen.unit_pair(draw, gen.ANG_UNITS) if val_kind == "angle" else (None, None)
    pct = st.one_of(st.sampled_from([0.0, 50.0, 68.0, 100.0]), st.floats(0, 100).map(lambda x: round(x, 3)))
    case = dict(
        edges=e, data_unit=bin_units[0], bins_unit=bin_units[1],
        val_unit=val_unit, arg_unit=arg_unit,
        bin_values=gen.floats(draw, n, e[0] * 0.8, e[-1] * 1.1,
                              gen.around(e) if bin_units[0] == bin_units[1] else [], log=draw(st.booleans())),
        values=gen.floats(draw, n, draw(st.sampled_from([-2, 0])), 2, [0.0, 0.5, 0.5]),
        percentile=draw(st.one_of(st.just("default"), pct, st.lists(pct, min_size=1, max_size=5))) if not gen.rare(draw, 8)
        else gen.floats(draw, draw(st.integers(10, 40)), 0, 100),
        fill=draw(st.sampled_from([0.3, -10.0, 5.0, 0.0, float("nan")])),
        min=gen.pick(draw, [None, None, 0.02, 0.5, -1.0, 0.0], -2, 1),
        max=gen.pick(draw, [None, None, 0.6, 1.5, 5.0, 0.0], -1.5, 2),
        smoothing=draw(st.sampled_from([None, None, None, 0.5, 1.0, 2.3])),
        min_events=draw(st.sampled_from(["default", "default", 1, 2, 3, 5, 20, 70])),
        dtype=draw(st.sampled_from(["f8", "f8", "f8", "f4", "i8", "i4", "u2", ">f8"])),
        nan_at=[draw(st.integers(0, max(n - 1, 0)))] if n and gen.rare(draw, 6) else [],
        exact=draw(st.booleans()), bulk=ev.tile(draw, n),
    )
    return case


def percentile(values, p):
    """linear interpolation between the order statistics"""
    v = np.sort([x for x in values if not math.isnan(x)]).tolist()
    if not v:
        return math.nan
    pos = p / 100 * (len(v) - 1)
    i = min(int(math.floor(pos)), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (pos - i)


def smooth(rows, sigma):
    n = len(rows)
    radius = int(4 * sigma + 0.5)
    w = np.array([math.exp(-0.5 * (k / sigma) ** 2) for k in range(-radius, radius + 1)])
    w /= w.sum()
    out = np.zeros_like(rows)
    for i in range(n):
        for k, wk in zip(range(-radius, radius + 1), w):
            out[i] += wk * rows[min(max(i + k, 0), n - 1)]
    return out


def cut(case):
    for k in ("values", "bin_values"):
        case[k] = ev.expand(case[k], case["bulk"])
    vals = np.array(case["values"])
    for k in case["nan_at"]:
        vals[k] = np.nan
    n = len(vals)
    if case["smoothing"] is not None and math.isnan(case["fill"]):
        case["fill"] = 0.1
    if case["min"] is not None and case["max"] is not None and case["min"] > case["max"]:
        case["min"], case["max"] = case["max"], case["min"]
    if case["dtype"][0] in "iu":
        # integers (e.g. multiplicities, counts of photons)
        vals = np.round(np.nan_to_num(vals, nan=1) * 10)
        if case["dtype"] == "u2":
            vals = np.abs(vals)
    if case["val_unit"] is None:
        values = vals.astype(case["dtype"])
        arg = float
    else:
        values = gen.q(vals, "deg", case["val_unit"])
        if case["dtype"] == "f4":
            values = u.Quantity(values.value.astype("f4"), values.unit, dtype="f4")
        elif case["dtype"][0] in "iu":
            values = u.Quantity(np.round(values.value), values.unit)
            if len(values) == 0 or np.max(np.abs(values.value)) < 60000:
                values = u.Quantity(values.value.astype(case["dtype"]), values.unit, dtype=case["dtype"])

        def arg(x):
            return gen.q(x, "deg", case["arg_unit"])

    if case["data_unit"] is None:
        bin_values, bins = np.array(case["bin_values"]), np.array(case["edges"])
        d, e = bin_values, bins
    else:
        bin_values = gen.q(case["bin_values"], "TeV", case["data_unit"])
        bins = gen.q(case["edges"], "TeV", case["bins_unit"])
        d, e = bin_values.value, bins.to_value(case["data_unit"])
        if case["data_unit"] != case["bins_unit"] and gen.ambiguous(d, e):
            raise Skip

    kw = {}
    pct = 68 if case["percentile"] == "default" else case["percentile"]
    if case["percentile"] != "default":
        kw["percentile"] = np.array(pct) if isinstance(pct, list) else pct
    min_events = 10 if case["min_events"] == "default" else case["min_events"]
    if case["min_events"] != "default":
        kw["min_events"] = min_events
    for k in ("min", "max"):
        if case[k] is not None:
            kw[f"{k}_value"] = arg(case[k])
    if case["smoothing"] is not None:
        kw["smoothing"] = case["smoothing"]

    before = np.array(np.asarray(values))
    t = calculate_percentile_cut(values, bin_values, bins, fill_value=arg(case["fill"]), **kw)
    o.same(np.asarray(values), before, "values after call")

    n_bins = len(e) - 1
    o.check(isinstance(t, QTable) and len(t) == n_bins, f"result is {type(t)} of {len(t)} rows")
    o.check(set(t.colnames) == {"low", "high", "center", "n_events", "cut"}, f"columns {t.colnames}")
    eb = np.asarray(bins.value if case["bins_unit"] else bins)
    o.close(t["low"], eb[:-1], "low", rtol=1e-12, unit=case["bins_unit"])
    o.close(t["high"], eb[1:], "high", rtol=1e-12, unit=case["bins_unit"])
    o.close(t["center"], 0.5 * (eb[1:] + eb[:-1]), "center", rtol=1e-12, unit=case["bins_unit"])

    pcts = pct if isinstance(pct, list) else [pct]
    v64 = np.asarray(values, dtype=float)
    exp = np.full((n_bins, len(pcts)), np.nan)
    counts = np.zeros(n_bins)
    used = 0
    unit = case["val_unit"]

    def in_unit(x):
        return float(x) if unit is None else float(gen.q(x, "deg", unit).value)

    index = o.bins_of(d, e)
    for i in range(n_bins):
        sel = v64[index == i].tolist()
        counts[i] = len(sel)
        for j, p in enumerate(pcts):
            if len(sel) < min_events or len(sel) == 0:
                exp[i, j] = in_unit(case["fill"])
            else:
                x = percentile(sel, p)
                used += len(sel) > 1
                if case["min"] is not None:
                    x = max(x, in_unit(case["min"])) if not math.isnan(x) else x
                if case["max"] is not None:
                    x = min(x, in_unit(case["max"])) if not math.isnan(x) else x
                exp[i, j] = x
    if case["smoothing"] is not None and not np.isnan(exp).any():
        exp = smooth(exp, case["smoothing"])
    elif case["smoothing"] is not None:
        raise Skip
    o.same(np.asarray(t["n_events"]), counts, "n_events")
    if not isinstance(pct, list):
        exp = exp[:, 0]
    rtol = 1e-5 if case["dtype"] == "f4" else 1e-9
    o.close(t["cut"], exp, "cut", rtol=rtol, scale=float(np.nanmax(np.abs(exp), initial=0)), unit=unit)
    labels = [case["dtype"], f"{'several' if isinstance(pct, list) else 'one'} percentile"]
    for k in ("min", "max", "smoothing"):
        if case[k] is not None:
            labels.append(k)
    if (counts == min_events).any():
        labels.append("exactly min_events")
    if (counts < min_events).any():
        labels.append("fill value")
    if case["val_unit"] != case["arg_unit"]:
        labels.append("different units of arguments")
    if n == 0:
        labels.append("empty")
    return labels, used > 0


SUBS = [Sub("percentile", cut_case(), cut, 3200, 80000, shards=8)]
