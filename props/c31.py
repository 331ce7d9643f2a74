import warnings

import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Sub
from pyirf.interpolation import (
    BaseNearestNeighborSearcher, DiscretePDFComponentEstimator, DiscretePDFNearestNeighborSearcher,
    ParametrizedComponentEstimator, ParametrizedNearestNeighborSearcher,
)

warnings.simplefilter("ignore")

RULE = (
    "grids of random points and of integers with many equal distances in one to three dimensions, templates of any"
    " shape and type with or without units, sequences of targets anywhere, norms of different order, used directly and in"
    " the estimators; non-trivial: the nearest point depends on the norm or several points are equally near"
)


@st.composite
def case_strategy(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    ints = draw(st.booleans())
    n = gen.count(draw, dim + 1, 9, 60)
    if ints:
        width = draw(st.sampled_from([2, 3, 4]))
        cells = [(int(k), int(j), int(i)) for k in range(width) for j in range(width) for i in range(width)]
        cells = sorted({c[:dim] for c in cells})
        order = draw(st.permutations(range(len(cells))))[: min(n, len(cells))]
        points = [list(map(float, cells[k])) for k in order]
        targets = [[float(x) / 2 for x in gen.ints(draw, dim, -2, 2 * width)] for _ in range(draw(st.integers(1, 4)))]
    else:
        points = np.array(gen.floats(draw, n * dim, -5, 20)).reshape(n, dim).tolist()
        targets = [gen.floats(draw, dim, -10, 30) for _ in range(draw(st.integers(1, 4)))]
    shape = draw(st.sampled_from([[1], [3], [2, 3], [1, 4]]))
    return dict(
        points=points, ints=ints, shape=shape, targets=targets, norm=draw(st.sampled_from([None, 1, 1, 2, 3, 4, 2.0])),
        kind=draw(st.sampled_from(["base", "param", "param", "pdf", "pdf", "estimator", "pdf estimator"])),
        dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])), unit=draw(st.sampled_from([None, None, "m2", "sr-1"])),
        flat=draw(st.booleans()), scale=draw(st.sampled_from([0, 0, 0, -30, 20])), int_points=draw(st.booleans()), modify=draw(st.booleans()),
    )


def distances(case, target, order):
    d = np.abs(np.array(case["points"]) - np.array(target))
    return (d ** order).sum(axis=1) ** (1 / order)


def neighbor(case):
    pts = np.array(case["points"])
    n, dim = pts.shape
    # the unit of the coordinates does not matter, powers of two are exact
    scale = 2.0 ** case["scale"]
    pts = pts * scale
    if case["ints"] and case["scale"] >= 0 and case["int_points"]:
        pts = pts.astype("i8")
    values = (np.arange(n * int(np.prod(case["shape"]))) + 1).reshape([n] + case["shape"]).astype(case["dtype"])
    # the kind of value does not matter, e.g. not the normalisation of distributions
    unit = case["unit"]
    kind = case["kind"]
    data = values if unit is None else u.Quantity(values, unit, dtype=values.dtype)
    kw = {} if case["norm"] is None else dict(norm_ord=case["norm"])
    edges = np.linspace(0, 1, values.shape[-1] + 1)
    before = [pts.copy(), values.copy()]
    if "estimator" in kind and np.linalg.matrix_rank((pts[1:] - pts[0]) / scale, tol=1e-3) < dim:
        # no volume
        kind = kind.replace("estimator", "param").replace("pdf param", "pdf")
    if kind == "base":
        class Searcher(BaseNearestNeighborSearcher):
            pass
        s = Searcher(pts, data, **kw)
    elif kind == "param":
        s = ParametrizedNearestNeighborSearcher(pts, data, **kw)
    elif kind == "pdf":
        s = DiscretePDFNearestNeighborSearcher(pts, edges, data, **kw)
    elif kind == "estimator":
        c = ParametrizedNearestNeighborSearcher
        s = ParametrizedComponentEstimator(pts, data, c, dict(kw), c, dict(kw))
    else:
        c = DiscretePDFNearestNeighborSearcher
        s = DiscretePDFComponentEstimator(pts, edges, data, c, dict(kw), c, dict(kw))
    order = 2 if case["norm"] is None else case["norm"]
    nontrivial = False
    labels = [kind, f"norm {case['norm']}"]
    for t in case["targets"]:
        target = scale * (np.array(t) if case["flat"] else np.array([t]))
        result = s(target)
        d = distances(case, t, order)
        best = np.flatnonzero(d <= d.min() * (1 + 1e-9) + 1e-12)
        if case["ints"]:
            # the first one, estimators sort the points in one dimension
            if kind.endswith("estimator") and dim == 1:
                best = best[[np.argmin(pts[best, 0])]]
            else:
                best = best[:1]
        got = o.value(result, unit, "result") if unit else np.asarray(result)
        o.check(got.size == int(np.prod(case["shape"])), f"shape is {got.shape}")
        got = got.reshape(case["shape"])
        if not any(np.array_equal(got, values[i]) for i in best):
            o.fail(f"target {t}: got template {np.argwhere((values == got).all(axis=tuple(range(1, values.ndim)))).tolist()},"
                   f" expected {best.tolist()}, distances {d.tolist()}")
        other = [np.argmin(distances(case, t, k)) for k in (1, 2, 4)]
        nontrivial |= len(set(other)) > 1 or np.sum(d <= d.min() * (1 + 1e-9)) > 1
        if case["modify"]:
            # results are independent of the templates
            result[...] = 0 * result
    o.same(pts, before[0], "grid points")
    o.same(values, before[1], "templates")
    if unit:
        o.same(data.value, before[1], "templates")
    return labels, nontrivial


@st.composite
def invalid_case(draw):
    return dict(norm=draw(st.sampled_from(["0", "-1", "-2.0", "1.5", "inf", "-inf", "nan", "'2'", "None", "[2]", "2j", "0.5"])),
                kind=draw(st.sampled_from(["param", "pdf"])), n=draw(st.integers(2, 5)))


def invalid(case):
    norm = eval(case["norm"], dict(inf=np.inf, nan=np.nan))
    pts, values = np.arange(float(case["n"])), np.ones((case["n"], 3))
    if case["kind"] == "param":
        func = lambda: ParametrizedNearestNeighborSearcher(pts, values, norm_ord=norm)  # noqa
    else:
        func = lambda: DiscretePDFNearestNeighborSearcher(pts, np.arange(4.0), values, norm_ord=norm)  # noqa
    o.raises((ValueError, TypeError), func, what=f"norm_ord={case['norm']}")
    return [case["norm"]], True


SUBS = [
    Sub("neighbor", case_strategy(), neighbor, 4000, 100000, shards=4),
    Sub("invalid", invalid_case(), invalid, 100, 500),
]
