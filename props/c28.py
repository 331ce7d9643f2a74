import warnings

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    EffectiveAreaEstimator, GridDataInterpolator, ParametrizedNearestNeighborSearcher,
    ParametrizedNearestSimplexExtrapolator, ParametrizedVisibleEdgesExtrapolator,
)

warnings.simplefilter("ignore")

RULE = (
    "effective areas of any shape over grids in one to three dimensions, with values of zero, below, at and"
    " above the minimum, in any unit; targets inside, on grid points and outside; non-trivial: the"
    " target is not a grid point and some, but not all, results are zero, or different templates are combined"
)
ASSUMPTIONS = ["results within 1e-6 (relative) of the minimum effective area are not compared"]

NEAR = 1e-6


@st.composite
def case_strategy(draw):
    g = draw(grids.grid(dims=(1, 1, 2), n_max=6))
    n = len(g["points"])
    shape = draw(st.sampled_from([[1], [3], [2, 3], [4, 1], [2, 1, 2]]))
    a_min = draw(st.sampled_from([None, None, 1.0, 100.0, 0.25, 1e-4, 1e5]))
    low = 1.0 if a_min is None else a_min
    return dict(
        grid=g, shape=shape, a_min=a_min,
        values=gen.floats(draw, n * int(np.prod(shape)), 0.05 * low, draw(st.sampled_from([1e2, 1e6])) * low,
                          [0.0, low, low, 0.5 * low], log=True, max_specials=12),
        zero=draw(st.integers(0, 4)) == 2, target=draw(grids.target(g)), flat=draw(st.booleans()),
        units=[gen.unit(draw, gen.AREA_UNITS) for _ in range(2)],
        extrapolator=draw(st.sampled_from(["simplex", "simplex", "visible"])), scale=draw(st.sampled_from([2.0, 10.0, 0.5])),
        interpolator=draw(st.sampled_from(["default", "griddata", "neighbor"])),
    )


def inputs(case):
    points = grids.array(case["grid"])
    a = grids.values(case["values"], [len(points)] + case["shape"])
    if case["zero"] and case["shape"]:
        a[..., 0] = 0
    return points, a


def estimator(case, points, area, a_min):
    kw = {}
    if a_min is not None:
        kw["min_effective_area"] = a_min
    if case["interpolator"] == "griddata":
        kw["interpolator_cls"] = GridDataInterpolator
        kw["interpolator_kwargs"] = dict(method="linear")
    elif case["interpolator"] == "neighbor":
        kw["interpolator_cls"] = ParametrizedNearestNeighborSearcher
    kw["extrapolator_cls"] = {
        "simplex": ParametrizedNearestSimplexExtrapolator, "visible": ParametrizedVisibleEdgesExtrapolator,
    }[case["extrapolator"]]
    return EffectiveAreaEstimator(points, area, **kw)


def cut(log_area, a_min):
    """area in m2, and where the result is clear"""
    area = np.exp(log_area)
    exact = np.abs(area / a_min - 1) < NEAR
    return np.where(area <= a_min, 0, area), ~exact


def estimate(case):
    g = case["grid"]
    points, a = inputs(case)
    cand, where = grids.weights(g, case["target"])
    low = 1.0 if case["a_min"] is None else case["a_min"]
    log_a = np.log(np.maximum(a, low))
    biggest = max(1, max(np.abs(c).max() for _, c in cand)) * max(1, np.abs(log_a).max())
    if biggest > 300:
        # extreme extrapolation, overflows
        raise Skip
    visible = where == "outside" and case["extrapolator"] == "visible" and g["dim"] == 2
    if visible:
        # blends all visible edges, also these of thin simplices
        d = ParametrizedVisibleEdgesExtrapolator(np.array(g["points"], float), log_a)(np.array([case["target"]]))
        if np.abs(d).max() > 300:
            raise Skip
    area = gen.q(a, "m2", case["units"][0])
    a_min = None if case["a_min"] is None else gen.q(low, "m2", case["units"][1])
    target = np.array(case["target"]) if case["flat"] else np.array([case["target"]])
    before = [np.array(x) for x in (points, area, target)]
    est = estimator(case, points, area, a_min)
    result = est(target)
    again = est(target.copy())
    o.same(again, result, "the same target again")
    for x, b, name in zip((points, area, target), before, ("grid points", "effective area", "target")):
        o.same(x, b, name)
    got = o.value(result, "m2", "effective area").astype(float)
    neighbor = where == "inside" and case["interpolator"] == "neighbor"
    if neighbor:
        got = got.reshape([1] + case["shape"])
    o.shape_is(got, [1] + case["shape"], "effective area")
    o.check(np.all(np.isfinite(got)) and np.all(got >= 0), "not finite or negative")
    o.check(np.all((got == 0) | (got > low * (1 - 1e-6))), "values below the minimum are not zero")

    expected = []
    if neighbor:
        x = np.array(g["points"], float)
        d = np.linalg.norm(x - np.array(case["target"]), axis=1)
        expected = [log_a[i] for i in np.flatnonzero(d <= d.min() * (1 + 1e-9) + 1e-12)]
    elif visible:
        expected = [np.asarray(d)[0]]
    else:
        expected = [np.tensordot(c, log_a[list(t)], axes=1) for t, c in cand]
    ok = False
    for e in expected:
        value, clear = cut(e, low)
        close = np.abs(got[0] - value) <= 1e-9 * biggest * value
        ok |= bool(np.all(close | ~clear))
    if not ok:
        o.fail(f"{where}: got {got[0].tolist()}, expected {cut(expected[0], low)[0].tolist()}")
    # all templates at the minimum
    used = sorted({i for t, _ in cand for i in t})
    if where == "outside" and case["extrapolator"] == "visible":
        used = list(range(len(a)))
    for k in np.ndindex(*case["shape"]):
        if (a[(slice(None),) + k][used] <= low).all():
            o.check(got[(0,) + k] == 0 or neighbor, "not zero although all templates are at or below the minimum")
    # values below the minimum count as the minimum
    other = np.where(a < low, 0.3 * a, a)
    o.close(estimator(case, points, other * u.m**2, low * u.m**2)(target).to_value(u.m**2).reshape(got.shape), got,
            "other values below the minimum", rtol=1e-9)
    # units
    s = case["scale"]
    scaled = estimator(case, points, s * a * u.m**2, s * low * u.m**2)(target).to_value(u.m**2).reshape(got.shape)
    clear = np.all([np.abs(np.exp(e) / low - 1) > NEAR for e in expected], axis=0)
    o.close(np.where(clear, scaled[0], 0), np.where(clear, s * got[0], 0), "scaled areas", rtol=1e-8 * biggest)
    zero = got == 0
    point = any(tuple(p) == tuple(case["target"]) for p in g["points"])
    labels = [where, "zeros" if zero.any() else "no zeros", f"{g['dim']}d", "neighbor" if neighbor else "linear"]
    return labels, not point and not zero.all()


@st.composite
def exponential_case(draw):
    g = draw(grids.grid(dims=(1, 2, 3, 3), n_max=7))
    shape = draw(st.sampled_from([[1], [3], [2, 3], [1, 2]]))
    size = int(np.prod(shape))
    return dict(
        grid=g, shape=shape, offset=gen.floats(draw, size, 2, 10),
        slope=gen.floats(draw, size * g["dim"], -1, 1), target=draw(grids.target(g, ("inside",))),
        unit=gen.unit(draw, gen.AREA_UNITS), a_min=draw(st.sampled_from([None, 10.0])),
    )


def exponential(case):
    """areas which depend exponentially on the parameters are exact for every triangulation"""
    g = case["grid"]
    pts = np.array(g["points"], float)
    if g["dim"] == 3 and np.linalg.matrix_rank(pts[1:] - pts[0], tol=1e-2 * np.ptp(pts)) < 3:
        raise Skip
    if g["dim"] == 2 and grids.Plane(pts).degenerate():
        raise Skip
    if grids.position(g, case["target"]) != "inside":
        raise Skip
    size = np.ptp(pts, axis=0)
    offset = np.array(case["offset"]).reshape(case["shape"])
    slope = np.array(case["slope"]).reshape([g["dim"]] + case["shape"])

    def area(p):
        return np.exp(offset + np.tensordot((p - pts.mean(axis=0)) / size, slope, axes=1))

    low = 1.0 if case["a_min"] is None else case["a_min"]
    templates = area(pts)
    if np.any(templates < low * 1.001):
        raise Skip
    kw = {} if case["a_min"] is None else dict(min_effective_area=low * u.m**2)
    est = EffectiveAreaEstimator(grids.array(g), gen.q(templates, "m2", case["unit"]), **kw)
    result = est(np.array([case["target"]]))
    o.close(result, area(np.array(case["target"]))[np.newaxis], "exponential areas", unit="m2", rtol=1e-7)
    return [f"{g['dim']}d", g["kind"]], len(pts) > g["dim"] + 1


@st.composite
def invalid_case(draw):
    return dict(kind=draw(st.sampled_from(["area unit", "no unit", "min unit", "min no unit", "shape", "outside", "class"])),
                unit=draw(st.sampled_from(["m", "deg2", "s", "TeV"])), n=draw(st.integers(2, 5)), x=gen.floats(draw, 1, 0.1, 3)[0])


def invalid(case):
    n, kind, unit = case["n"], case["kind"], case["unit"]
    points = np.arange(float(n))
    area = np.linspace(10, 20, n) * u.m**2
    target = np.array([[0.5]])
    kw = {}
    if kind == "area unit":
        area = area.value * u.Unit(unit)
    elif kind == "no unit":
        area = area.value
    elif kind == "min unit":
        kw["min_effective_area"] = case["x"] * u.Unit(unit)
    elif kind == "min no unit":
        kw["min_effective_area"] = case["x"]
    elif kind == "shape":
        area = area[:-1]
    elif kind == "outside":
        target = np.array([[n + case["x"]]])
    elif kind == "class":
        kw["interpolator_cls"] = dict
    o.raises((u.UnitsError, TypeError, ValueError), lambda: EffectiveAreaEstimator(points, area, **kw)(target), what=kind)
    return [kind], True


SUBS = [
    Sub("estimate", case_strategy(), estimate, 2400, 60000, shards=4),
    Sub("exponential", exponential_case(), exponential, 800, 20000, shards=2),
    Sub("invalid", invalid_case(), invalid, 150, 1500),
]
