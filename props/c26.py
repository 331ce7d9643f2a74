import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    GridDataInterpolator, ParametrizedComponentEstimator, ParametrizedNearestSimplexExtrapolator,
    ParametrizedVisibleEdgesExtrapolator,
)

warnings.simplefilter("ignore")

RULE = (
    "grids in one and two dimensions (unsorted, product grids, random and jittered points) with random"
    " and linear parameters of any shape, targets inside, on grid points, and outside in all directions;"
    " non-trivial: more templates than one simplex and the target is no grid point"
)

CLASSES = {
    "simplex": ParametrizedNearestSimplexExtrapolator, "visible": ParametrizedVisibleEdgesExtrapolator,
}


@st.composite
def case_strategy(draw, where=("inside", "point", "outside", "outside", "outside")):
    g = draw(grids.grid(n_max=8))
    n = len(g["points"])
    shape = draw(st.sampled_from([[], [], [1], [3], [2, 3], [1, 1], [2, 1, 2]]))
    linear = draw(st.booleans())
    size = int(np.prod(shape))
    return dict(
        grid=g, shape=shape, linear=linear,
        values=gen.floats(draw, (g["dim"] + 1 if linear else n) * size, -10, 10, [0.0]),
        target=draw(grids.target(g, where)), direct=gen.rare(draw, 2), flat=draw(st.booleans()),
        extrapolator=draw(st.sampled_from(["simplex", "visible"])),
        m=draw(st.sampled_from([None, 1, 2, 3, 5, 9, 1.0, 2.0])), method=draw(st.sampled_from([None, None, "linear", "nearest"])),
        v_dtype=draw(st.sampled_from(["f8", "f8", "i8"])),
    )


def parameters(case, points):
    """templates (n, ...) and for linear ones the exact value as function"""
    shape, dim = case["shape"], case["grid"]["dim"]
    pts = np.asarray(points, float)
    if case["linear"]:
        c = grids.values(case["values"], [dim + 1] + shape)
        scale = np.ptp(pts, axis=0)

        def exact(t):
            return c[0] + np.tensordot((np.asarray(t, float) - pts[0]) / scale, c[1:], axes=1)

        return np.array([exact(p) for p in pts]).reshape([len(pts)] + shape), exact
    v = grids.values(case["values"], [len(pts)] + shape)
    if case["v_dtype"] == "i8":
        v = np.round(v).astype(int)
    return v, None


def segment(x, values, t):
    """linear function through the neighbouring (or outermost) templates"""
    order = np.argsort(x)
    xs, vs = x[order], values[order]
    if t <= xs[0]:
        k = 0
    elif t >= xs[-1]:
        k = len(xs) - 2
    else:
        k = max(i for i in range(len(xs) - 1) if xs[i] <= t)
    f = (t - xs[k]) / (xs[k + 1] - xs[k])
    return (1 - f) * vs[k] + f * vs[k + 1], k


def combine(values, tri, c):
    return np.tensordot(c, values[list(tri)], axes=1)


def candidates(case, values):
    """all results which are right (several, if the triangulation is not unique)"""
    g, t = case["grid"], np.array(case["target"])
    pts = np.array(g["points"])
    if g["dim"] == 1:
        inside = pts.min() <= t[0] <= pts.max()
        return [segment(pts[:, 0], values, t[0])[0]], "inside" if inside else "outside", 1
    plane = grids.Plane(pts)
    if plane.degenerate():
        raise Skip
    d = plane.outside_distance(t)
    is_point = any((p == t).all() for p in pts)
    if abs(d) < 1e-9 and not is_point:
        raise Skip
    if is_point:
        return [values[[bool((p == t).all()) for p in pts].index(True)]], "point", 1
    if d < 0:
        cand = plane.containing(t)
        return [combine(values, *c) for c in cand], "inside", 1
    if case["extrapolator"] == "simplex":
        out = []
        for f in plane.nearest_facets(t):
            out += [combine(values, *c) for c in plane.attached(f, t)]
        return out, "outside", 1
    visible = plane.visible_facets(t)
    if visible is None:
        raise Skip
    m = case["m"] or 1
    w = np.array([plane.angle(f, t) for f in visible]) ** (m + 1)
    w = w / w.sum()
    if len(visible) == 1:
        # the nearest simplex (next to a corner, the other one is accepted as well)
        facets = visible + [f for f in plane.nearest_facets(t) if f not in visible]
        options = [[c for f in facets for c in plane.attached(f, t)]]
    else:
        options = [plane.attached(f, t) for f in visible]
    if np.prod([len(x) for x in options]) > 300:
        raise Skip
    out = []
    for choice in itertools.product(*options):
        out.append(sum(wi * combine(values, *c) for wi, c in zip(w, choice)))
    return out, "outside", len(visible)


def parametrized(case):
    g = case["grid"]
    points = grids.array(g)
    values, exact = parameters(case, points.reshape(len(g["points"]), -1))
    cand, where, n_visible = candidates(case, values.astype(float))
    o.check(len(cand) > 0, "harness: no candidate")
    target = np.array(case["target"]) if case["flat"] else np.array([case["target"]])
    before = points.copy(), values.copy(), target.copy()
    inter_kw, extra_kw = {}, {}
    if case["method"] is not None:
        inter_kw["method"] = case["method"]
    if case["extrapolator"] == "visible" and case["m"] is not None:
        extra_kw["m"] = case["m"]
    extra = CLASSES[case["extrapolator"]]
    if case["method"] == "nearest" and where == "inside":
        pts = np.array(g["points"])
        d = np.linalg.norm(pts - np.array(case["target"]), axis=1)
        near = np.sort(d)
        if near[1] - near[0] < 1e-6 * near[1]:
            raise Skip
        cand = [values[np.argmin(d)].astype(float)]
        exact = None
    if case["direct"] and (where != "point" or g["kind"] in ("1d", "product")):
        # these classes need sorted grids
        order = np.argsort(points.reshape(-1)) if g["dim"] == 1 else np.arange(len(points))
        t = np.array([case["target"]])
        if where == "outside":
            result = extra(points[order], values[order], **extra_kw)(t)
        else:
            result = GridDataInterpolator(points[order], values[order], **inter_kw)(t)
    else:
        est = ParametrizedComponentEstimator(
            points, values, interpolator_kwargs=inter_kw, extrapolator_cls=extra, extrapolator_kwargs=extra_kw)
        result = est(target)
    o.same(points, before[0], "grid points")
    o.same(values, before[1], "templates")
    o.same(target, before[2], "target")
    shape = [1] + (case["shape"] or [1])
    o.shape_is(result, shape, "result")
    # accuracy is limited by the distance of the target and the shape of the triangle
    pts = np.array(g["points"])
    far = 1 + np.max(np.abs(np.array(case["target"]) - pts.mean(axis=0)) / np.ptp(pts, axis=0))
    tol = 1e-7 * far * (np.max(np.abs(values)) + 1e-3) * (1 if g["dim"] == 1 else 10)
    got = np.asarray(result, float).reshape(case["shape"])
    if exact is not None:
        o.close(got, exact(case["target"]), f"linear parameters ({where})", rtol=0, atol=tol)
    size = [np.max(np.abs(c), initial=0) for c in cand]
    # (corners of the grid can also count as outside, up to rounding)
    ok = any(np.all(np.abs(got - c) <= tol + 1e-8 * s) for c, s in zip(cand, size))
    if not ok:
        o.fail(f"{where}: got {got.tolist()}, expected one of {[np.asarray(c).tolist() for c in cand[:4]]}")
    labels = [f"{g['dim']}d {where}"]
    if n_visible > 1 and case["extrapolator"] == "visible":
        labels.append(f"{min(n_visible, 4)} visible edges")
    if where == "outside" and g["dim"] == 2:
        labels.append(case["extrapolator"])
    return labels, len(pts) > g["dim"] + 1 and where != "point"


@st.composite
def continuous_case(draw):
    g = draw(grids.grid(dims=(1, 2), n_max=7))
    n = len(g["points"])
    return dict(grid=g, values=gen.floats(draw, n, -10, 10), pair=gen.ints(draw, 2, 0, n - 1),
                frac=draw(st.sampled_from([0.25, 0.5, 0.7])), which=draw(st.integers(0, 8)),
                extrapolator=draw(st.sampled_from(["simplex", "visible"])), eps=draw(st.sampled_from([1e-7, 1e-6])))


def continuous(case):
    """inter- and extrapolation agree on the limit of the grid"""
    g = case["grid"]
    points = grids.array(g)
    values = np.array(case["values"])
    pts = np.array(g["points"])
    size = np.ptp(pts, axis=0)
    if g["dim"] == 1:
        a, b = pts.min(), pts.max()
        edge = np.array([a if case["which"] % 2 else b])
        outer = edge + case["eps"] * size * (-1 if case["which"] % 2 else 1)
        slope = 100
    else:
        plane = grids.Plane(pts)
        if plane.degenerate():
            raise Skip
        facets = plane.facets()
        f = facets[case["which"] % len(facets)]
        a, b = pts[list(f)]
        edge = a + case["frac"] * (b - a)
        normal = np.array([b[1] - a[1], a[0] - b[0]])
        normal /= np.linalg.norm(normal)
        if np.dot(normal, edge - plane.inner) < 0:
            normal = -normal
        outer = edge + case["eps"] * normal * plane.scale
        edge = edge - case["eps"] * normal * plane.scale
        # gradient of the attached triangle limits the difference
        tri = [t for t in plane.triangles() if set(f) <= set(t)]
        if min(abs(plane.cross(*pts[list(t)])) for t in tri) < 1e-3 * plane.scale**2:
            raise Skip
        slope = 1e4
    est = ParametrizedComponentEstimator(points, values, extrapolator_cls=CLASSES[case["extrapolator"]])
    inner_v, outer_v = est(np.array([edge])), est(np.array([outer]))
    o.close(outer_v, inner_v, "outside and inside of the limit of the grid", rtol=0, atol=case["eps"] * slope * 100)
    return [f"{g['dim']}d", case["extrapolator"]], True


@st.composite
def three_case(draw):
    g = draw(grids.grid(dims=(3,), n_max=8))
    shape = draw(st.sampled_from([[], [1], [2], [2, 3]]))
    return dict(
        grid=g, shape=shape, values=gen.floats(draw, 4 * int(np.prod(shape)), -10, 10),
        other=gen.floats(draw, len(g["points"]) * int(np.prod(shape)), -10, 10),
        target=draw(grids.target(g, ("inside", "inside", "point", "outside"))), flat=draw(st.booleans()),
    )


def three(case):
    """linear interpolation in three dimensions"""
    g, shape = case["grid"], case["shape"]
    if grids.flat(g):
        raise Skip
    where = grids.position(g, case["target"])
    points, pts = grids.array(g), np.array(g["points"], float)
    t = np.array(case["target"])
    corner = [k for k, p in enumerate(pts) if (p == t).all()]
    if where is None or corner and g["kind"] != "product":
        raise Skip
    c = grids.values(case["values"], [4] + shape)
    scale = np.ptp(pts, axis=0)

    def exact(x):
        return c[0] + np.tensordot((x - pts[0]) / scale, c[1:], axes=1)

    linear = np.array([exact(p) for p in pts]).reshape([len(pts)] + shape)
    other = grids.values(case["other"], [len(pts)] + shape)
    target = t if case["flat"] else t[None]
    result = []
    for v in (linear, other):
        est = ParametrizedComponentEstimator(points, v)
        if where == "outside":
            o.raises(ValueError, est, target, what="outside in 3d")
            continue
        r = est(target)
        o.shape_is(r, [1] + (shape or [1]), "result")
        result.append(np.asarray(r).reshape(shape))
    if where == "outside":
        return ["outside"], True
    o.close(result[0], exact(t), "linear parameters", rtol=0, atol=1e-7 * np.abs(linear).max() + 1e-9)
    o.check(np.all(result[1] >= other.min(axis=0) - 1e-6) and np.all(result[1] <= other.max(axis=0) + 1e-6),
            "not between the templates")
    if corner:
        o.close(result[1], other[corner[0]], "at a grid point", rtol=1e-7, atol=1e-6)
    return ["point" if corner else "inside", g["kind"]], not corner


@st.composite
def invalid_case(draw):
    g = draw(grids.grid(dims=(1, 2)))
    return dict(grid=g, m=draw(st.sampled_from([0, -1, 1.5, "1", None, "nan", "inf", 0.5, [1, 2]])),
                three=draw(st.booleans()), cls=draw(st.sampled_from(["simplex", "visible"])))


def invalid(case):
    g = case["grid"]
    points = grids.array(g)
    if g["dim"] == 2 and grids.Plane(g["points"]).degenerate():
        raise Skip
    values = np.arange(len(points), dtype=float)
    m = float(case["m"]) if case["m"] in ("nan", "inf") else case["m"]
    o.raises((TypeError, ValueError), ParametrizedVisibleEdgesExtrapolator, points, values, m=m, what=f"m={m!r}")
    kw = dict(extrapolator_cls=ParametrizedVisibleEdgesExtrapolator, extrapolator_kwargs=dict(m=m))
    o.raises((TypeError, ValueError), ParametrizedComponentEstimator, points, values, what=f"m={m!r}", **kw)
    if case["three"]:
        p3 = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
        o.raises(NotImplementedError, CLASSES[case["cls"]], p3, np.arange(4.0), what="three dimensions")
    return [], True


SUBS = [
    Sub("parametrized", case_strategy(), parametrized, 3000, 50000, shards=6),
    Sub("three dimensions", three_case(), three, 300, 6000),
    Sub("continuous", continuous_case(), continuous, 600, 10000, shards=2),
    Sub("invalid", invalid_case(), invalid, 60, 600),
]
