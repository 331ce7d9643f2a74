import warnings

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    DiscretePDFComponentEstimator, DiscretePDFNearestNeighborSearcher, EnergyDispersionEstimator,
    MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator, PDFNormalization, PSFTableEstimator,
    QuantileInterpolator,
)

warnings.simplefilter("ignore")

RULE = (
    "energy dispersions and point spread functions of any shape with the axis of the distribution at any"
    " position, in any units, over grids in one and two dimensions, targets inside, on grid points and"
    " outside, all methods; non-trivial: the axis is not the default one, or the units are not the default"
)

INTER = {"quantile": QuantileInterpolator, "moment": MomentMorphInterpolator, "neighbor": DiscretePDFNearestNeighborSearcher}
NORM = {"edisp": PDFNormalization.AREA, "psf": PDFNormalization.CONE_SOLID_ANGLE}
EXTRA = {"moment": MomentMorphNearestSimplexExtrapolator, "neighbor": DiscretePDFNearestNeighborSearcher}


@st.composite
def case_strategy(draw):
    g = draw(grids.grid(dims=(1, 1, 2), n_max=5))
    n = len(g["points"])
    kind = draw(st.sampled_from(["edisp", "psf"]))
    n_bins = gen.count(draw, 4, 20, 80)
    other = draw(st.sampled_from([[], [2], [3, 2], [2, 3], [1, 2], [4, 4], [2, 1, 3]]))
    pos = draw(st.integers(0, len(other)))
    w = np.array(gen.fractions(draw, n_bins)) * draw(st.sampled_from([0.0, 1.0])) + 0.5
    lo, hi = (0.2, 5.0) if kind == "edisp" else (draw(st.sampled_from([0.0, 0.1])), draw(st.sampled_from([0.5, 2.0])))
    if draw(st.integers(0, 5)) == 2:
        other = [n_bins] * len(other)
    size = n * int(np.prod(other))
    return dict(
        grid=g, kind=kind, edges=(lo + (hi - lo) * np.append(0, np.cumsum(w)) / w.sum()).tolist(), other=other, pos=pos,
        axis=draw(st.sampled_from(["default", "positive", "negative"])),
        center=gen.floats(draw, size, 0.3, 0.7), width=gen.floats(draw, size, 0.08, 0.25),
        target=draw(grids.target(g)), flat=draw(st.booleans()), units=[gen.unit(draw, ["sr-1", "deg-2", "rad-2", "arcmin-2"]),
                                                                     gen.unit(draw, gen.ANG_UNITS)],
        interpolator=draw(st.sampled_from(["default", "quantile", "moment", "moment", "neighbor"])),
        extrapolator=draw(st.sampled_from(["moment", "neighbor", "none"])), order=draw(st.booleans()),
        # options of the user (only for the interpolator, only for the extrapolator, both or none)
        kwargs=draw(st.sampled_from(["no", "inter", "extra", "both"])), resolution=draw(st.sampled_from([None, 1e-3, 2e-3, 1e-2])),
        normalization=draw(st.booleans()), empty=gen.ints(draw, size, 0, 9), use_empty=gen.rare(draw, 4),
    )


def templates(case):
    """values with the bins along the last axis, in 1 or 1 / sr"""
    e = np.array(case["edges"])
    mids = (e[1:] + e[:-1]) / 2
    full = [len(case["grid"]["points"])] + case["other"]
    mu = e[0] + np.array(case["center"]).reshape(full)[..., None] * (e[-1] - e[0])
    s = np.array(case["width"]).reshape(full)[..., None] * (e[-1] - e[0])
    p = np.exp(-((mids - mu) / s) ** 2 / 2) + 1e-3
    p = p / (p * widths(case)).sum(axis=-1)[..., None]
    if case["use_empty"]:
        p[np.array(case["empty"]).reshape(full) == 3] = 0
    return p


def widths(case):
    e = np.array(case["edges"])
    return np.diff(e) if case["kind"] == "edisp" else np.diff(o.cone(np.deg2rad(e)))


def move(a, case):
    """bins from the last axis to their position, which does not count the leading axis"""
    return np.moveaxis(a, -1, 1 + case["pos"])


def build(case, points, values, edges, axis):
    cls = EnergyDispersionEstimator if case["kind"] == "edisp" else PSFTableEstimator
    kw = {}
    ndim = values.ndim
    if axis == "positive":
        kw["axis"] = 1 + case["pos"]
    elif axis == "negative":
        kw["axis"] = 1 + case["pos"] - ndim
    if case["interpolator"] != "default":
        kw["interpolator_cls"] = INTER[case["interpolator"]]
    if case["extrapolator"] != "none":
        kw["extrapolator_cls"] = EXTRA[case["extrapolator"]]
    options = {}
    norm = NORM[case["kind"]]
    if case["kwargs"] in ("inter", "both"):
        options["interpolator_kwargs"] = inter_options(case)
        if case["normalization"]:
            options["interpolator_kwargs"]["normalization"] = norm
    if case["kwargs"] in ("extra", "both"):
        options["extrapolator_kwargs"] = {"normalization": norm} if case["normalization"] else {}
    before = {k: dict(v) for k, v in options.items()}
    est = cls(points, edges, values, **kw, **options)
    o.check(options == before, "keyword arguments changed")
    return est


def inter_options(case):
    if case["kwargs"] in ("inter", "both") and case["interpolator"] in ("default", "quantile") and case["resolution"]:
        return {"quantile_resolution": case["resolution"]}
    return {}


def estimate(case):
    g = case["grid"]
    points, p, e = grids.array(g), templates(case), np.array(case["edges"])
    where = grids.position(g, case["target"])
    if where is None:
        raise Skip
    psf = case["kind"] == "psf"
    axis = case["axis"]
    if axis == "default":
        # EDISP: second to last, PSF: last
        default = len(case["other"]) - (0 if psf else 1)
        if case["pos"] != default:
            axis = "negative"
    values = move(p, case)
    edges = e
    if psf:
        values, edges = gen.q(values, "sr-1", case["units"][0]), gen.q(e, "deg", case["units"][1])
    target = np.array(case["target"]) if case["flat"] else np.array([case["target"]])
    before = [np.array(x) for x in (points, values, edges, target)]
    est = build(case, points, values, edges, axis)
    if where == "outside" and case["extrapolator"] == "none":
        o.raises(ValueError, est, target, what="outside without extrapolator")
        return ["error"], True
    result = est(target)
    for x, b, name in zip((points, values, edges, target), before, ("grid points", "values", "edges", "target")):
        o.same(x, b, name)
    o.same(est(target.copy()), result, "the same target again")
    got = o.value(result, "sr-1" if psf else None, "result").astype(float)
    method = case["interpolator" if where == "inside" else "extrapolator"]
    if method == "neighbor":
        got = got.reshape([1] + list(values.shape[1:]))
    o.shape_is(got, [1] + list(values.shape[1:]), "result")
    o.check(np.all(np.isfinite(got)) and np.all(got >= 0), "not finite or negative")
    last = np.moveaxis(got, 1 + case["pos"], -1)
    # reference: the general estimator with bins along the last axis
    kw = dict(normalization=NORM[case["kind"]])
    cls = INTER.get(case["interpolator"], QuantileInterpolator)
    ref = DiscretePDFComponentEstimator(
        points, np.deg2rad(e) if psf else e, p, interpolator_cls=cls, interpolator_kwargs=dict(kw, **inter_options(case)),
        extrapolator_cls=EXTRA.get(case["extrapolator"]), extrapolator_kwargs=dict(kw))
    expected = np.asarray(ref(target)).reshape(last.shape)
    o.close(last, expected, f"{method} {where}", rtol=1e-6, atol=1e-6 * p.max())
    total = (last * widths(case)).sum(axis=-1)
    o.check(np.all((np.abs(total - 1) < 1e-6) | (total == 0)), f"normalisation is {total.tolist()}")
    o.check(case["use_empty"] or where == "outside" or np.all(total > 0), "empty result")
    if method == "neighbor":
        x = np.array(g["points"], float)
        d = np.linalg.norm(x - np.array(case["target"]), axis=1)
        near = np.flatnonzero(d <= d.min() * (1 + 1e-9) + 1e-12)
        o.check(any(np.allclose(last[0], p[i], rtol=1e-9, atol=0) for i in near), "not the nearest template")
    labels = [case["kind"], f"{method} {where}", axis]
    plain = not psf or case["units"] == ["sr-1", "rad"]
    return labels, axis != "default" or not plain


@st.composite
def invalid_case(draw):
    return dict(kind=draw(st.sampled_from([
        "psf unit", "psf no unit", "offset unit", "offset no unit", "edisp bins", "psf bins", "edisp axis", "points"])),
        n=draw(st.integers(2, 4)), m=draw(st.integers(3, 6)), unit=draw(st.sampled_from(["deg", "m-2", "TeV", "s-1"])))


def invalid(case):
    kind, n, m, unit = case["kind"], case["n"], case["m"], u.Unit(case["unit"])
    points, p = np.arange(float(n)), np.ones((n, 2, m + 3, m))
    edges = np.linspace(0, 1, m + 1)
    if kind.startswith("edisp"):
        if kind == "edisp bins":
            edges = np.linspace(0, 1, m + 2)
        func = lambda: EnergyDispersionEstimator(points, edges, p, axis=-1 if kind == "edisp bins" else -2)  # noqa
    else:
        psf, off = p / u.sr, edges * u.deg
        if kind == "psf unit":
            psf = p * unit
        elif kind == "psf no unit":
            psf = p
        elif kind == "offset unit":
            off = edges * (u.m if unit == u.deg else unit)
        elif kind == "offset no unit":
            off = edges
        elif kind == "psf bins":
            off = off[1:]
        elif kind == "points":
            points = np.arange(n + 1.0)
        func = lambda: PSFTableEstimator(points, off, psf)  # noqa
    o.raises((u.UnitsError, TypeError, ValueError), func, what=kind)
    return [kind], True


SUBS = [
    Sub("estimate", case_strategy(), estimate, 1200, 25000, shards=6),
    Sub("invalid", invalid_case(), invalid, 150, 1500),
]
