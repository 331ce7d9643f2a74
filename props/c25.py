import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    DiscretePDFComponentEstimator, DiscretePDFExtrapolator, DiscretePDFInterpolator,
    ParametrizedComponentEstimator, ParametrizedExtrapolator, ParametrizedInterpolator,
)

RULE = (
    "grids in one to three dimensions (unsorted, integers, product grids, random points) with random"
    " templates and sequences of targets inside, on the limits, on grid points and outside, estimated"
    " with user defined inter- and extrapolators, and all kinds of invalid input; non-trivial: targets"
    " inside and outside, or an invalid input"
)

CALLS = []


def smooth(grid_points, values, target, factor):
    """an estimate which does not depend on the order of the templates, but on their position"""
    d = np.sqrt(np.sum((np.asarray(grid_points, float) - np.asarray(target, float)) ** 2, axis=1))
    w = 1 / (1 + d)
    w = w / w.sum()
    return factor * np.tensordot(w, values, axes=1)[np.newaxis]


class PInter(ParametrizedInterpolator):
    def __init__(self, grid_points, params, factor=1.0):
        super().__init__(grid_points, params)
        self.factor = factor

    def interpolate(self, target_point):
        CALLS.append("inter")
        return smooth(self.grid_points, self.params, target_point, self.factor)


class PExtra(ParametrizedExtrapolator):
    def __init__(self, grid_points, params, factor=-1.0):
        super().__init__(grid_points, params)
        self.factor = factor

    def extrapolate(self, target_point):
        CALLS.append("extra")
        return smooth(self.grid_points, self.params, target_point, self.factor)


class DInter(DiscretePDFInterpolator):
    def __init__(self, grid_points, bin_edges, binned_pdf, factor=1.0, **kw):
        super().__init__(grid_points, bin_edges, binned_pdf, **kw)
        self.factor = factor

    def interpolate(self, target_point):
        CALLS.append("inter")
        return smooth(self.grid_points, self.binned_pdf * np.diff(self.bin_edges), target_point, self.factor)


class DExtra(DiscretePDFExtrapolator):
    def __init__(self, grid_points, bin_edges, binned_pdf, factor=-1.0, **kw):
        super().__init__(grid_points, bin_edges, binned_pdf, **kw)
        self.factor = factor

    def extrapolate(self, target_point):
        CALLS.append("extra")
        return smooth(self.grid_points, self.binned_pdf * np.diff(self.bin_edges), target_point, self.factor)


@st.composite
def case_strategy(draw):
    g = draw(grids.grid(dims=(1, 1, 2, 2, 3), n_max=7))
    n = len(g["points"])
    kind = draw(st.sampled_from(["param", "pdf"]))
    shape = draw(st.sampled_from([[], [3], [2, 3], [1]])) if kind == "param" else \
        draw(st.sampled_from([[3], [2, 4], [1, 2, 3], [1]]))
    targets = [draw(grids.target(g)) for _ in range(draw(st.integers(1, 4)))]
    return dict(
        grid=g, kind=kind, shape=shape, values=gen.floats(draw, n * int(np.prod(shape)), 0, 10),
        targets=targets, flat=gen.ints(draw, len(targets), 0, 1), extrapolator=draw(st.integers(0, 3)) != 1,
        factors=[draw(st.sampled_from([None, 2.0, 3.0])), draw(st.sampled_from([None, -2.0, -5.0]))],
        use_none=draw(st.booleans()), int_target=draw(st.booleans()), order=draw(st.permutations(range(n))),
    )


def edges_for(n):
    return np.cumsum(np.arange(1, n + 2, dtype=float))


def build(case, points, values):
    kw = {}
    f_in, f_ex = case["factors"]
    if f_in is not None:
        kw["interpolator_kwargs"] = dict(factor=f_in)
    elif case["use_none"]:
        kw["interpolator_kwargs"] = None
    if case["extrapolator"]:
        kw["extrapolator_cls"] = PExtra if case["kind"] == "param" else DExtra
        if f_ex is not None:
            kw["extrapolator_kwargs"] = dict(factor=f_ex)
    if case["kind"] == "param":
        return ParametrizedComponentEstimator(points, values, interpolator_cls=PInter, **kw)
    return DiscretePDFComponentEstimator(
        points, edges_for(values.shape[-1]), values, interpolator_cls=DInter, **kw)


def estimate(case):
    g = case["grid"]
    points = grids.array(g)
    values = grids.values(case["values"], [len(points)] + case["shape"])
    if g["dim"] == 2 and grids.Plane(g["points"]).degenerate():
        raise Skip
    if g["dim"] == 3:
        pts = np.array(g["points"])
        if abs(np.linalg.svd((pts - pts.mean(0)) / np.ptp(pts, axis=0), compute_uv=False)[-1]) < 1e-2:
            raise Skip
    est = build(case, points, values)
    before = points.copy(), values.copy()
    f_in, f_ex = case["factors"]
    f_in, f_ex = f_in or 1.0, f_ex or -1.0
    work = values
    if case["kind"] == "pdf":
        work = values * np.diff(edges_for(values.shape[-1]))
    elif values.ndim == 1:
        work = values[:, np.newaxis]
    labels, done = [f"{g['dim']}d", case["kind"]], set()
    for t, flat in zip(case["targets"], case["flat"]):
        where = grids.position(g, t)
        if where is None:
            continue
        target = np.array(t) if flat else np.array([t])
        if case["int_target"] and all(float(x).is_integer() for x in t):
            target = target.astype(int)
        done.add(where)
        del CALLS[:]
        if where == "outside" and not case["extrapolator"]:
            o.raises(ValueError, est, target, what=f"target {t} outside of the grid without extrapolator")
            o.check(CALLS == [], "called although outside of the grid")
            continue
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            result = est(target)
        warned = any("extrapolated" in str(x.message) for x in w)
        exp_call = "inter" if where == "inside" else "extra"
        o.check(CALLS == [exp_call], f"target {t} is {where} of the grid, called {CALLS}")
        o.check(warned == (where == "outside"), f"warning about extrapolation: {warned}, target is {where}")
        expected = smooth(g["points"], work, t, f_in if where == "inside" else f_ex)
        o.close(result, expected, f"estimate for target {where}", rtol=1e-9, atol=1e-12)
    o.same(points, before[0], "grid points after the calls")
    o.same(values, before[1], "templates after the calls")
    # another order of the templates
    order = case["order"]
    other = build(case, points[order], values[order])
    for t in case["targets"]:
        where = grids.position(g, t)
        if where is None or where == "outside" and not case["extrapolator"]:
            continue
        o.close(other(np.array([t])), est(np.array([t])), "templates in another order", rtol=1e-9, atol=1e-12)
    return labels + sorted(done), len(done) == 2


INVALID = [
    "grid list", "grid object", "grid string", "grid complex", "few points", "params list", "params number",
    "target list", "target scalar", "two targets", "target dim", "interpolator class", "extrapolator class",
    "edges list", "edges number", "other interpolator", "other extrapolator",
]


@st.composite
def invalid_case(draw):
    g = draw(grids.grid(dims=(1, 2), n_max=5))
    n = len(g["points"])
    kind = draw(st.sampled_from(["param", "pdf"]))
    shape = [3] if kind == "param" else [2, 3]
    return dict(grid=g, kind=kind, shape=shape, values=gen.floats(draw, n * int(np.prod(shape)), 0, 10),
                what=draw(st.sampled_from(INVALID)), more=draw(st.integers(1, 3)))


def invalid(case):
    g, what, kind = case["grid"], case["what"], case["kind"]
    points = grids.array(g)
    if g["dim"] == 2 and grids.Plane(g["points"]).degenerate():
        raise Skip
    values = grids.values(case["values"], [len(points)] + case["shape"])
    edges = edges_for(values.shape[-1])
    param = kind == "param"
    own = (PInter, PExtra) if param else (DInter, DExtra)
    wrong = (DInter, DExtra) if param else (PInter, PExtra)
    cls = ParametrizedComponentEstimator if param else DiscretePDFComponentEstimator

    def make(points=points, values=values, edges=edges, inter=own[0], extra=own[1]):
        args = (points, values) if param else (points, edges, values)
        return cls(*args, interpolator_cls=inter, extrapolator_cls=extra)

    est = make()
    t = np.array([g["points"][0]])
    est(t)
    bad = {
        "grid list": (TypeError, lambda: make(points=points.tolist())),
        "grid object": (TypeError, lambda: make(points=points.astype(object))),
        "grid string": (TypeError, lambda: make(points=points.astype(str))),
        "grid complex": (TypeError, lambda: make(points=points.astype(complex))),
        "few points": (ValueError, lambda: make(points=points[: g["dim"]], values=values[: g["dim"]])),
        "params list": (TypeError, lambda: make(values=values.tolist())),
        "params number": (ValueError, lambda: make(values=np.concatenate([values] + [values[:1]] * case["more"]))),
        "target list": (TypeError, lambda: est(t.tolist())),
        "target scalar": (TypeError, lambda: est(float(t[0, 0]))),
        "two targets": (ValueError, lambda: est(np.repeat(t, 1 + case["more"], axis=0))),
        "target dim": (ValueError, lambda: est(np.repeat(t, 2 + case["more"], axis=1))),
        "interpolator class": (TypeError, lambda: make(inter=wrong[0])),
        "extrapolator class": (TypeError, lambda: make(extra=wrong[1])),
        "other interpolator": (TypeError, lambda: make(inter=own[1])),
        "other extrapolator": (TypeError, lambda: make(extra=own[0])),
        "edges list": (TypeError, lambda: make(edges=edges.tolist())),
        "edges number": (ValueError, lambda: make(edges=np.append(edges, edges[-1] + 1 + np.arange(case["more"])))),
    }
    if param and what.startswith("edges"):
        raise Skip
    kinds, func = bad[what]
    o.raises(kinds, func, what=what)
    return [what], True


SUBS = [
    Sub("estimate", case_strategy(), estimate, 1600, 30000, shards=6),
    Sub("invalid", invalid_case(), invalid, 400, 5000, shards=2),
]
