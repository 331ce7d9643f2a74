import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    GridDataInterpolator, ParametrizedNearestNeighborSearcher, ParametrizedNearestSimplexExtrapolator,
    ParametrizedVisibleEdgesExtrapolator, RadMaxEstimator,
)

warnings.simplefilter("ignore")

RULE = (
    "tables of theta cuts over grids in one and two dimensions with none to all values at the fill value,"
    " fill values given, inferred and not used, targets inside, on grid points and outside; non-trivial: the target is not"
    " a grid point and more than one kind of result occurs (estimate, limited, fill value)"
)

INTER = {"default": None, "griddata": GridDataInterpolator, "neighbor": ParametrizedNearestNeighborSearcher}
EXTRA = {
    "simplex": ParametrizedNearestSimplexExtrapolator, "visible": ParametrizedVisibleEdgesExtrapolator,
    "neighbor": ParametrizedNearestNeighborSearcher,
}


@st.composite
def case_strategy(draw):
    g = draw(grids.grid(dims=(1, 1, 2), n_max=6))
    n = len(g["points"])
    shape = draw(st.sampled_from([[1], [4], [2, 3], [4, 1], [2, 1, 2]]))
    size = int(np.prod(shape))
    fill = draw(st.sampled_from([None, "infer", "value", "value", "below", "above"]))
    return dict(
        grid=g, shape=shape, fill=fill, values=gen.floats(draw, n * size, 0.02, 0.3),
        filled=gen.ints(draw, n * size, 0, 5), n_filled=draw(st.integers(0, 4)),
        steep=gen.rare(draw, 4), target=draw(grids.target(g)), flat=draw(st.booleans()),
        interpolator=draw(st.sampled_from(["default", "default", "griddata", "neighbor"])),
        extrapolator=draw(st.sampled_from(["simplex", "simplex", "visible", "neighbor"])),
        order=draw(st.permutations(range(n))), dtype=draw(st.sampled_from(["f8", "f8", "f4"])),
    )


FILL = 0.3125


def inputs(case):
    points = grids.array(case["grid"])
    r = grids.values(case["values"], [len(points)] + case["shape"])
    f = np.array(case["filled"]).reshape(r.shape)
    r[f < case["n_filled"]] = FILL
    if case["steep"]:
        # strongly varying values, so that extrapolation gets below 0 and above the fill value
        r = np.where(r == FILL, r, r ** 3 * 10)
    r = r.astype(case["dtype"])
    fill = {"value": FILL, "below": 0.2, "above": 0.5}.get(case["fill"], case["fill"])
    return points, r, fill


def estimator(case, points, r, fill):
    kw = {}
    if INTER[case["interpolator"]] is not None:
        kw["interpolator_cls"] = INTER[case["interpolator"]]
    if fill is not None or case["flat"]:
        kw["fill_value"] = fill
    return RadMaxEstimator(points, r, extrapolator_cls=EXTRA[case["extrapolator"]], **kw)


def expected_results(case, r, fill):
    """possible results with the kind of each value"""
    g, t = case["grid"], np.array(case["target"])
    cand, where = grids.weights(g, t)
    method = case["interpolator" if where == "inside" else "extrapolator"]
    x = np.array(g["points"], float)
    if method == "neighbor":
        d = np.linalg.norm(x - t, axis=1)
        near = np.flatnonzero(d <= d.min() * (1 + 1e-9) + 1e-12)
        return [(r[i], np.full(r[i].shape, "n")) for i in near], where, method, 1
    limit = np.max(r) if fill == "infer" else fill
    out = []
    visible = where == "outside" and method == "visible"
    if visible and g["dim"] == 2:
        given = np.asarray(ParametrizedVisibleEdgesExtrapolator(x, r)(t[np.newaxis]))[0]
    for tri, c in cand:
        v = r[list(tri)]
        est = np.tensordot(c, v, axes=1)
        if visible and g["dim"] == 2:
            est = given
        kind = np.full(est.shape, "e")
        kind[est < 0] = "0"
        est = np.where(est < 0, 0, est)
        if limit is not None:
            n = (v >= limit).sum(axis=0)
            if g["dim"] == 2:
                est = np.where(n == 1, v.min(axis=0), est)
                kind[n == 1] = "m"
                all_fill = n >= 2
            else:
                all_fill = n >= 1
            all_fill = all_fill | (est > limit)
            est = np.where(all_fill, limit, est)
            kind[all_fill] = "f"
        out.append((est, kind))
    return out, where, method, max(1, max(np.abs(c).max() for _, c in cand))


def estimate(case):
    g = case["grid"]
    points, r, fill = inputs(case)
    expected, where, method, size = expected_results(case, r.astype(float), fill)
    if fill == "below" and case["dtype"] != "f8":
        raise Skip
    target = np.array(case["target"]) if case["flat"] else np.array([case["target"]])
    before = [x.copy() for x in (points, r, target)]
    est = estimator(case, points, r, fill)
    result = np.array(est(target))
    again = est(target.copy())
    o.same(again, result, "the same target again")
    for x, b, name in zip((points, r, target), before, ("grid points", "rad_max", "target")):
        o.same(x, b, name)
    got = result.reshape([1] + case["shape"]) if method == "neighbor" else result
    o.shape_is(got, [1] + case["shape"], "rad_max")
    limit = np.max(r) if fill == "infer" else fill
    o.check(np.all(got >= 0), "negative rad_max")
    if limit is not None and method != "neighbor":
        o.check(np.all(got <= limit), "larger than the fill value")
    tol = (1e-9 if case["dtype"] == "f8" else 1e-5) * size * 0.3 * 10
    if not any(np.all(np.abs(got[0] - e) <= tol) for e, k in expected):
        # rounding decides between the estimate and the fill value only where they agree
        o.fail(f"{method} {where}, fill value {limit}: got {got[0].tolist()}, expected {expected[0][0].tolist()}")
    kinds = set("".join(expected[0][1].ravel().tolist()))
    labels = [f"{method} {where}", str(case["fill"]), f"{g['dim']}d"] + [f"result {k}" for k in sorted(kinds)]
    # order of the templates
    if g["dim"] == 1 and method != "neighbor":
        order = case["order"]
        o.close(estimator(case, points[order], r[order], fill)(target), result, "order of the templates", atol=tol)
    point = any(tuple(p) == tuple(case["target"]) for p in g["points"])
    return labels, not point and (len(kinds) > 1 or fill is None)


@st.composite
def invalid_case(draw):
    return dict(kind=draw(st.sampled_from(["3d fill", "3d infer", "outside", "class", "shape"])),
                n=draw(st.integers(4, 7)), x=gen.floats(draw, 40, 0.1, 1))


def invalid(case):
    n, kind, x = case["n"], case["kind"], np.array(case["x"])
    points = x[: 2 * n].reshape(n, 2)
    if kind.startswith("3d"):
        points = np.append(x[: 3 * 4].reshape(4, 3), np.eye(3), axis=0)
        n = 7
    r = x[:n].reshape(n, 1)
    kw = {}
    target = points.mean(axis=0)
    if kind.startswith("3d"):
        # no error without special handling
        out = RadMaxEstimator(points, r)(target)
        o.check(np.all(out > 0) and np.all(out <= r.max()), "three dimensions without fill value")
        kw["fill_value"] = 0.5 if kind == "3d fill" else "infer"
    elif kind == "outside":
        target = np.array([1.5, -0.3])
        kw["fill_value"] = "infer"
    elif kind == "class":
        kw["extrapolator_cls"] = dict
    elif kind == "shape":
        r = r[1:]
    o.raises((TypeError, ValueError), lambda: RadMaxEstimator(points, r, **kw)(target), what=kind)
    return [kind], True


SUBS = [
    Sub("estimate", case_strategy(), estimate, 3000, 80000, shards=6),
    Sub("invalid", invalid_case(), invalid, 150, 1500),
]
