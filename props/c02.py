import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Skip, Sub
from pyirf.binning import (
    add_overflow_bins, bin_center, create_bins_per_decade, join_bin_lo_hi,
    split_bin_lo_hi,
)

RULE = (
    "random edges in 1 to 3 dimensions with and without units for splitting / joining, random"
    " energy ranges in different units with end points on and off the grid for logarithmic"
    " bins; non-trivial: at least two bins (splitting / joining), or more than one decade or a"
    " fractional number of bins (logarithmic bins), or an added bin (overflow)"
)


@st.composite
def split_case(draw):
    shape = draw(st.sampled_from([[], [], [2], [1], [3], [2, 2]]))
    n_edges = draw(st.integers(2, 8))
    rows = int(np.prod(shape)) if shape else 1
    lo = draw(st.sampled_from([0.01, 1.0, 100.0, -5.0]))
    return dict(
        shape=shape, n_edges=n_edges,
        widths=[[0.1 + 3 * f for f in gen.fractions(draw, n_edges - 1)] for _ in range(rows)],
        lo=lo, unit=draw(st.sampled_from([None, "TeV", "GeV", "deg"])),
        bad=draw(st.integers(0, n_edges)), row=draw(st.integers(0, rows - 1)),
        shift=draw(st.sampled_from([0.01, -0.02, 0.5, 1.0, 2e-4, -1e-4])),
        scale=draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-12, 1e9])),
        other=draw(st.integers(0, 3)) == 2,
    )


def split(case):
    e = np.array([np.append(case["lo"], case["lo"] + np.cumsum(w)) for w in case["widths"]])
    e = e.reshape(case["shape"] + [case["n_edges"]]) * case.get("scale", 1.0)
    bins = e if case["unit"] is None else u.Quantity(e, case["unit"])
    orig = e.copy()
    lo, hi = split_bin_lo_hi(bins)
    o.close(lo, orig[..., :-1], "lower edges", rtol=0, unit=case["unit"])
    o.close(hi, orig[..., 1:], "upper edges", rtol=0, unit=case["unit"])
    joined = join_bin_lo_hi(lo, hi)
    o.close(joined, orig, "joined edges", rtol=0, unit=case["unit"])
    if case["unit"] is not None:
        o.check(joined.unit == bins.unit, f"unit of joined bins is {joined.unit}")
    if case.get("other") and case["unit"] is not None:
        # lower and upper edges in different units
        other = {"TeV": "GeV", "GeV": "J", "deg": "rad"}[case["unit"]]
        for a, b in ((lo.to(other), hi), (lo, hi.to(other))):
            o.close(join_bin_lo_hi(a, b), orig, "joined edges of different units", rtol=1e-12, unit=case["unit"])
    o.close(bins, orig, "edges after call", rtol=0, unit=case["unit"])
    if e.ndim == 1:
        c = bin_center(bins)
        o.centers(c, orig, "bin center", unit=case["unit"])

    labels = [f"ndim {e.ndim}"]
    # any single pair of edges that does not match has to be detected
    k = case["bad"]
    if 1 <= k < case["n_edges"] - 1:
        bad_lo = np.array(orig[..., :-1])
        flat = bad_lo.reshape(-1, bad_lo.shape[-1])
        # a relative difference, also to the largest edge
        scale = np.abs(e).max()
        flat[case["row"], k] += case["shift"] * scale
        bad_lo = bad_lo if case["unit"] is None else u.Quantity(bad_lo, case["unit"])
        o.raises(ValueError, join_bin_lo_hi, bad_lo, hi, what="not matching edges")
        labels.append("mismatch")
    return labels, case["n_edges"] > 2


@st.composite
def overflow_case(draw):
    kind = draw(st.sampled_from(["neg", "zero", "pos", "inf", "both"]))
    e = gen.edges(draw, 0.1, 10, 1, 5)
    if kind == "neg":
        e = [x - 5 for x in e]
    if kind == "zero":
        e = [0.0] + e
    if kind == "both":
        e = [-float("inf")] + e + [float("inf")]
    if kind == "inf":
        e = e + [float("inf")]
    scale = draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-20, 1e9]))
    e = [x * scale for x in e]
    return dict(edges=e, positive=draw(st.booleans()), default=draw(st.booleans()),
                unit=draw(st.sampled_from([None, "TeV", "GeV", "deg", "m"])))


def overflow(case):
    e = case["edges"]
    bins = np.array(e) if case["unit"] is None else u.Quantity(e, case["unit"])
    positive = True if case["default"] else case["positive"]
    args = {} if case["default"] else {"positive": positive}
    result = add_overflow_bins(bins, **args)
    lower = 0.0 if positive else -np.inf
    exp = list(e)
    if e[0] > lower:
        exp = [lower] + exp
    if e[-1] < np.inf:
        exp = exp + [np.inf]
    o.close(result, exp, "bins with over- and underflow", rtol=0, unit=case["unit"])
    if case["unit"] is not None:
        o.check(result.unit == bins.unit, f"unit is {result.unit}")
    again = add_overflow_bins(result, **args)
    o.close(again, exp, "adding bins twice", rtol=0, unit=case["unit"])
    o.close(bins, e, "bins after call", rtol=0, unit=case["unit"])
    return [f"added {len(exp) - len(e)}"], len(exp) > len(e)


@st.composite
def decade_case(draw):
    n = draw(st.integers(1, 25))
    if gen.rare(draw, 5):
        n = draw(st.integers(26, 200))
    e_min = gen.pick(draw, [0.01, 0.02, 0.1, 1.0, 5.0, 20.0, 0.003, 30.0], 1e-6, 1e6, log=True)
    n_steps = draw(st.integers(1, 6 * n))
    off = draw(st.sampled_from([0.0, 0.0, 0.0, 0.001, 0.01, 0.25, 0.5, 0.9, 0.99, 0.998]))
    return dict(
        n=n, e_min=e_min, n_steps=n_steps, off=off, default=draw(st.booleans()),
        u_min=gen.unit(draw, gen.E_UNITS), u_max=gen.unit(draw, gen.E_UNITS),
    )


def decades(case):
    n = 5 if case["default"] else case["n"]
    e_max = case["e_min"] * 10 ** ((case["n_steps"] + case["off"]) / n)
    q_min, q_max = gen.q(case["e_min"], "TeV", case["u_min"]), gen.q(e_max, "TeV", case["u_max"])
    kw = {} if case["default"] else {"bins_per_decade": n}
    bins = create_bins_per_decade(q_min, q_max, **kw)
    o.check(bins.unit == q_min.unit, f"unit is {bins.unit}, expected that of the minimum")
    exp = [case["e_min"] * 10 ** (k / n) for k in range(case["n_steps"] + 1)]
    o.close(bins, exp, "logarithmic bins", rtol=1e-9, unit="TeV")
    return [f"end point {'on' if case['off'] == 0 else 'off'} grid"], \
        case["off"] > 0 or case["n_steps"] > n


FIXED = [
    dict(shape=[], n_edges=4, widths=[[1.0, 1.0, 1.0]], lo=1.0, unit=unit, bad=1, row=0, shift=0.5, scale=1e-9)
    for unit in (None, "TeV")
]

SUBS = [
    Sub("split_join", split_case(), split, 2000, 40000, shards=4, fixed=FIXED),
    Sub("overflow", overflow_case(), overflow, 1200, 20000, shards=2),
    Sub("per_decade", decade_case(), decades, 2400, 40000, shards=4),
]
