import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, grids, oracle as o
from harness.core import Skip, Sub
from pyirf.interpolation import (
    DiscretePDFComponentEstimator, DiscretePDFNearestNeighborSearcher, MomentMorphInterpolator,
    MomentMorphNearestSimplexExtrapolator, PDFNormalization, QuantileInterpolator,
)

warnings.simplefilter("ignore")

RULE = (
    "grids in one and two dimensions, binned distributions of different shape (peaks, random, gaps, empty at both ends, a single"
    " filled bin, empty) in uniform and non-uniform bins with both normalizations and further dimensions,"
    " targets inside, on grid points and outside; non-trivial: the target is not a grid point and the"
    " templates are different"
)
ASSUMPTIONS = [
    "shapes are compared for distributions without empty bins between filled ones (quantile interpolation), normalisation is required"
    " for distributions which are resolved by the bins",
]

NORM = {"area": PDFNormalization.AREA, "cone": PDFNormalization.CONE_SOLID_ANGLE}


@st.composite
def case_strategy(draw, dims=(1, 1, 2), where=("inside", "inside", "point", "outside"), methods=("quantile", "moment"),
                  kinds=("peak", "peak", "random", "gaps", "single", "support", "mixed")):
    g = draw(grids.grid(dims=dims, n_max=5))
    n = len(g["points"])
    norm = draw(st.sampled_from(["area", "area", "cone"]))
    uniform = draw(st.booleans())
    n_bins = gen.count(draw, 3, 24, 80)
    lo, hi = (0.2, 5.0) if norm == "area" else (0.0, 0.05)
    if norm == "area":
        scale = draw(st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e-3]))
        lo, hi = lo * scale, hi * scale
    if uniform:
        edges = np.linspace(lo, hi, n_bins + 1).tolist()
    else:
        w = np.array(gen.fractions(draw, n_bins)) + draw(st.sampled_from([0.2, 1.0]))
        edges = (lo + (hi - lo) * np.append(0, np.cumsum(w)) / w.sum()).tolist()
    shape = draw(st.sampled_from([[], [], [2], [1], [2, 2]]))
    size = n * int(np.prod(shape))
    kind = draw(st.sampled_from(list(kinds)))
    return dict(
        grid=g, norm=norm, uniform=uniform, edges=edges, shape=shape, kind=kind,
        method=draw(st.sampled_from(list(methods))),
        center=gen.floats(draw, size, 0.3, 0.7), width=gen.floats(draw, size, 0.06, 0.2),
        values=gen.floats(draw, size * n_bins, 0.05, 1), same=draw(st.integers(0, 5)) == 2,
        empty=gen.ints(draw, size, 0, 12), use_empty=draw(st.integers(0, 3)) == 2,
        target=draw(grids.target(g, where)), order=draw(st.permutations(range(n))),
        default=draw(st.booleans()), flat=draw(st.booleans()),
        height=draw(st.sampled_from([1.0, 1.0, 1.0, 0.7])),
        resolution=draw(st.sampled_from([None, None, 0.01, 2e-3, 3e-4])), direct=draw(st.integers(0, 3)) == 2,
    )


def widths(case):
    e = np.array(case["edges"])
    return np.diff(e) if case["norm"] == "area" else np.diff(o.cone(e))


def templates(case):
    e = np.array(case["edges"])
    n_bins = len(e) - 1
    mids = (e[1:] + e[:-1]) / 2
    full = [len(case["grid"]["points"])] + case["shape"]
    size = int(np.prod(full))
    if case["kind"] == "table":
        p = np.array(case["pdf"])
        return p / (p * widths(case)).sum(axis=-1)[:, None]
    v = np.array(case["values"]).reshape(size, n_bins)
    out = np.zeros((size, n_bins))
    names = {"mixed": ["peak", "random", "gaps", "single", "support"]}.get(case["kind"], [case["kind"]])
    for k in range(size):
        kind = names[k % len(names)]
        if kind == "peak":
            mu, s = e[0] + case["center"][k] * (e[-1] - e[0]), case["width"][k] * (e[-1] - e[0])
            out[k] = np.exp(-((mids - mu) / s) ** 2 / 2) + 1e-3
        elif kind == "random":
            out[k] = v[k]
        elif kind == "gaps":
            out[k] = v[k] * (v[k, ::-1] < 0.5)
        elif kind == "support":
            # empty bins at both ends
            first, last = sorted((int(case["center"][k] * n_bins * 0.8), int(v[k, 0] * n_bins)))
            out[k, first:last + 1] = v[k, first:last + 1]
        elif kind == "single":
            out[k, int(case["center"][k] * n_bins)] = v[k, 0]
        if not out[k].any():
            out[k, k % n_bins] = 1
    w = widths(case)
    out = out / (out * w).sum(axis=1)[:, None] * case["height"]
    if case["use_empty"]:
        out[np.array(case["empty"]) == 3] = 0
    out = out.reshape(full + [n_bins])
    if case["same"]:
        out = np.repeat(out[:1], full[0], axis=0)
    return out


def estimator(case, points, pdf, edges, extra=MomentMorphNearestSimplexExtrapolator, where=None):
    kw = {}
    if case["norm"] != "area" or not case["default"]:
        kw = dict(normalization=NORM[case["norm"]])
    cls = {"quantile": QuantileInterpolator, "moment": MomentMorphInterpolator}[case["method"]]
    args = dict(interpolator_cls=cls, extrapolator_cls=extra)
    inter_kw = dict(kw)
    if case["method"] == "quantile" and case.get("resolution"):
        inter_kw["quantile_resolution"] = case["resolution"]
    if where is not None and case.get("direct"):
        # the classes on their own need sorted grids
        order = np.argsort(points.reshape(-1)) if case["grid"]["dim"] == 1 else slice(None)
        if where == "outside":
            return extra(points[order], edges, pdf[order], **kw)
        return cls(points[order], edges, pdf[order], **inter_kw)
    if case["method"] == "quantile" and case["default"]:
        del args["interpolator_cls"]
    if inter_kw or not case["default"]:
        args["interpolator_kwargs"] = inter_kw
    if kw or not case["default"]:
        args["extrapolator_kwargs"] = dict(kw)
    return DiscretePDFComponentEstimator(points, edges, pdf, **args)


def moments(case, pdf):
    """mean, std of one distribution"""
    e = np.array(case["edges"])
    mids = (e[1:] + e[:-1]) / 2
    p = pdf * widths(case)
    p = p / p.sum()
    mean = (p * mids).sum()
    if np.count_nonzero(p) == 1:
        return mean, np.sqrt(1 / 12) * np.diff(e)[np.argmax(p)]
    return mean, np.sqrt((p * (mids - mean) ** 2).sum())


def morph(case, pdfs, coeff):
    """moment morphing of one set of distributions, None if rounding decides on the result"""
    e = np.array(case["edges"])
    mids = (e[1:] + e[:-1]) / 2
    if any(not p.any() for p in pdfs):
        return np.zeros(len(mids))
    mom = [moments(case, p) for p in pdfs]
    mu = sum(c * m for c, (m, s) in zip(coeff, mom))
    sig = sum(c * s for c, (m, s) in zip(coeff, mom))
    if abs(sig) < 1e-7 * (e[-1] - e[0]):
        return None
    out = np.zeros(len(mids))
    scale = np.zeros(len(mids))
    for c, p, (m, s) in zip(coeff, pdfs, mom):
        if abs(c) < 1e-13:
            continue
        for j, x in enumerate(mids):
            y = (x - mu) * s / sig + m
            if np.min(np.abs(y - e)) < 1e-7 * (e[-1] - e[0]):
                return None
            k = o.bin_of(y, e)
            if 0 <= k < len(p):
                out[j] += c * p[k] * s / sig
                scale[j] += abs(c * p[k] * s / sig)
    norm = (out * widths(case)).sum()
    if not np.any(scale):
        return out
    if abs(norm) < 1e-6 * (scale * widths(case)).sum():
        return None
    out = out / norm
    # values of exactly zero up to rounding
    if np.any((np.abs(out) < 1e-9 * scale / abs(norm)) & (out != 0)):
        return None
    return out


def cut_negative(case, pdf):
    if pdf is None or np.all(pdf >= 0):
        return pdf
    pdf = np.where(pdf < 0, 0, pdf)
    norm = (pdf * widths(case)).sum()
    return pdf / norm if norm > 0 else pdf


def quantile(case, pdfs, coeff):
    """quantile interpolation: inverse cumulative distributions are combined linearly"""
    e = np.array(case["edges"])
    e = np.append(e[0] - (e[1] - e[0]), e)
    mids = (e[1:] + e[:-1]) / 2
    quantiles = np.linspace(0, 1, int(round(1 / (case.get("resolution") or 1e-3))))
    if any(not p.any() for p in pdfs):
        return np.zeros(len(mids) - 1)
    ppf = 0
    for c, p in zip(coeff, pdfs):
        cdf = np.append(0, np.cumsum(p * widths(case)))
        # only between the last empty and the last filled bin
        sel = slice(np.flatnonzero(cdf == 0)[-1], np.flatnonzero(cdf == cdf[-1])[0] + 1)
        ppf = ppf + c * np.interp(quantiles, (cdf / cdf[-1])[sel], mids[sel])
    density = np.diff(quantiles) / np.diff(ppf)
    x = (ppf[1:] + ppf[:-1]) / 2
    if np.any(np.abs(np.subtract.outer(x[[0, -1]], e)) < 1e-9 * (e[-1] - e[0])):
        return None
    out = np.interp(e[1:-1], x, density, left=0, right=0) * np.diff(mids)
    if not out.any():
        return out
    return out / out.sum() / widths(case)


def resolved(case, pdfs):
    """the distributions are wider than the bins"""
    w = np.diff(np.array(case["edges"])).max()
    return all(moments(case, p)[1] > w for p in pdfs if p.any())


def slices(pdf):
    return pdf.reshape(pdf.shape[0], -1, pdf.shape[-1])


def invariants(case, result, pdf, used, where):
    """finite, not negative, normalised"""
    w = widths(case)
    result = np.asarray(result, float)
    o.shape_is(result, [1] + list(pdf.shape[1:]), "result")
    o.check(np.all(np.isfinite(result)), f"{where}: result is not finite")
    o.check(np.all(result >= 0), f"{where}: result is negative")
    for k, (r, p) in enumerate(zip(result.reshape(-1, result.shape[-1]), np.swapaxes(slices(pdf), 0, 1))):
        total = (r * w).sum()
        if used is not None and any(not p[i].any() for i in used):
            o.check(total == 0, f"{where}: not empty although one of the templates is empty")
        else:
            zero_ok = where == "outside" or case["kind"] in ("single", "gaps", "support", "mixed") or not resolved(case, p)
            o.check(abs(total - 1) < 1e-9 or (total == 0 and zero_ok) or (used is None and total == 0),
                    f"{where}: normalisation is {total}")


def estimate(case):
    g = case["grid"]
    points, pdf, edges = grids.array(g), templates(case), np.array(case["edges"])
    cand, where = grids.weights(case["grid"], case["target"])
    target = np.array(case["target"]) if case["flat"] else np.array([case["target"]])
    before = [x.copy() for x in (points, pdf, edges, target)]
    # a corner of a general grid is inside or outside up to rounding
    clear = where == "outside" or g["kind"] in ("1d", "product") or not any(tuple(x) == tuple(case["target"]) for x in g["points"])
    est = estimator(case, points, pdf, edges, where=where if clear and not case["flat"] else None)
    result = est(target)
    for x, b, name in zip((points, pdf, edges, target), before, ("grid points", "templates", "edges", "target")):
        o.same(x, b, name)
    # templates with non-zero weight, None if not clear
    used = None
    if len(cand) == 1:
        c = cand[0][1]
        used = list(cand[0][0])
        if np.any(np.abs(c) < 1e-9):
            used = [i for i, x in zip(used, c) if abs(x) > 1e-9]
            if any(not pdf[i].any(axis=-1).all() for i in cand[0][0]):
                used = None
    invariants(case, result, pdf, used, where)
    method = case["method"] if where == "inside" else "moment"
    labels = [f"{method} {where}", case["kind"], case["norm"], f"{g['dim']}d"]
    labels.append("uniform" if case["uniform"] else "non-uniform")
    flat = np.asarray(result).reshape(-1, result.shape[-1])
    all_p = np.swapaxes(slices(pdf), 0, 1)
    n_exact = 0
    for k in range(len(flat)):
        p = all_p[k]
        if case["same"] and p[0].any() and where == "inside" and method == "moment":
            o.close(flat[k], p[0] / (p[0] * widths(case)).sum(), "the same templates", rtol=1e-9, atol=1e-9 * p.max())
        expected = []
        gapless = all((np.diff(np.flatnonzero(row)) == 1).all() for row in p)
        if method == "quantile" and not gapless:
            continue
        for tri, c in cand:
            c = np.where(np.abs(c) < 1e-13, 0, c)
            if np.any((np.abs(c) < 1e-8) & (c != 0)):
                expected.append(None)
            elif method == "quantile":
                expected.append(quantile(case, p[list(tri)], c))
            elif where == "inside":
                expected.append(morph(case, p[list(tri)], c))
            else:
                expected.append(cut_negative(case, morph(case, p[list(tri)], c)))
        if any(x is None for x in expected) or used is None and case["use_empty"]:
            continue
        tol = 1e-6 * max(np.max(x) for x in expected) + 1e-12
        if where == "outside":
            tol *= 10 * max(np.abs(c).max() for _, c in cand)
        if not any(np.all(np.abs(flat[k] - x) <= tol) for x in expected):
            o.fail(f"{method} {where}: got {flat[k].tolist()}, expected {expected[0].tolist()}")
        n_exact += 1
    if n_exact:
        labels.append(f"{method} compared")
    # order of the templates, slices on their own
    order = case["order"]
    again = estimator(case, points[order], pdf[order], edges)(target)
    if g["dim"] == 1:
        o.close(again, result, "templates in another order", rtol=1e-9, atol=1e-12)
    if case["shape"]:
        for k in range(len(flat)):
            one = estimator(case, points, all_p[k], edges)(target)
            o.close(np.asarray(one)[0], flat[k], "one slice on its own", rtol=1e-9, atol=1e-9 * (flat[k].max() + 1e-12))
    if used is None and not case["use_empty"]:
        labels.append("triangulation not unique")
    return labels, not case["same"] and not any(tuple(x) == tuple(case["target"]) for x in g["points"])


@st.composite
def shape_case(draw):
    c = draw(case_strategy(dims=(1, 2), where=("inside", "point"), kinds=("peak",)))
    n_bins = draw(st.integers(30, 60))
    lo, hi = (0.2, 5.0) if c["norm"] == "area" else (0.0, 0.05)
    w = np.array(gen.fractions(draw, n_bins)) * (0 if c["uniform"] else 1) + 1
    c["edges"] = (lo + (hi - lo) * np.append(0, np.cumsum(w)) / w.sum()).tolist()
    c["use_empty"] = False
    c["same"] = False
    n = len(c["center"])
    c["width"] = gen.floats(draw, n, 0.06, 0.1)
    c["center"] = gen.floats(draw, n, 0.4, 0.6)
    c["values"] = [1.0] * n * n_bins
    c["height"] = 1.0
    c["resolution"] = None
    return c


def shape_of_peaks(case):
    """Mean and width of the estimated distributions are the linear combination of the templates"""
    g = case["grid"]
    points, pdf, edges = grids.array(g), templates(case), np.array(case["edges"])
    cand, where = grids.weights(case["grid"], case["target"])
    if where != "inside":
        raise Skip
    result = np.asarray(estimator(case, points, pdf, edges)(np.array([case["target"]])))
    flat = result.reshape(-1, result.shape[-1])
    all_p = np.swapaxes(slices(pdf), 0, 1)
    w = np.diff(edges).max()
    worst = 0
    for k in range(len(flat)):
        got = moments(case, flat[k])
        best = None
        for tri, c in cand:
            m = [moments(case, p) for p in all_p[k][list(tri)]]
            mu, sig = (sum(ci * x[j] for ci, x in zip(c, m)) for j in (0, 1))
            dev = max(abs(got[0] - mu), abs(got[1] - sig)) / w
            best = dev if best is None else min(best, dev)
        worst = max(worst, best)
    o.check(worst < 0.5, f"mean or width differ by {worst} bins")
    return [case["method"], f"deviation < {np.ceil(worst * 10) / 10:.1f} bins"], True


@st.composite
def three_case(draw):
    """peaks with positions which depend linearly on three parameters"""
    g = draw(grids.grid(dims=(3,), n_max=7))
    n_bins = draw(st.integers(30, 60))
    norm = draw(st.sampled_from(["area", "area", "cone"]))
    lo, hi = (0.2, 5.0) if norm == "area" else (0.0, 0.05)
    w = np.array(gen.fractions(draw, n_bins)) * draw(st.sampled_from([0, 1])) + 1
    return dict(
        grid=g, norm=norm, edges=(lo + (hi - lo) * np.append(0, np.cumsum(w)) / w.sum()).tolist(),
        slope=gen.floats(draw, 6, -0.05, 0.05), width=gen.floats(draw, 2, 0.06, 0.1), two=draw(st.booleans()),
        target=draw(grids.target(g, ("inside", "point", "outside"))), outside=draw(st.sampled_from(["none", "moment"])),
    )


def three(case):
    g = case["grid"]
    if grids.flat(g):
        raise Skip
    where = grids.position(g, case["target"])
    if where is None:
        raise Skip
    points, edges = grids.array(g), np.array(case["edges"])
    mids = (edges[1:] + edges[:-1]) / 2
    scale = np.ptp(points.astype(float), axis=0)
    kw = dict(normalization=NORM[case["norm"]])

    def peak(x, k):
        mu = edges[0] + (0.5 + ((x - points.mean(axis=0)) / scale) @ np.array(case["slope"][3 * k:3 * k + 3])) * (edges[-1] - edges[0])
        p = np.exp(-((mids - mu) / (case["width"][k] * (edges[-1] - edges[0]))) ** 2 / 2)
        return p / (p * widths(case)).sum()

    def at(x):
        return np.array([peak(x, k) for k in range(2)]) if case["two"] else peak(x, 0)

    pdf = np.array([at(x) for x in points])
    # only quantile interpolation is possible in three dimensions
    o.raises(NotImplementedError, MomentMorphInterpolator, points, edges, pdf, what="morphing in 3d", **kw)
    o.raises(NotImplementedError, MomentMorphNearestSimplexExtrapolator, points, edges, pdf, what="extrapolation in 3d", **kw)
    est = DiscretePDFComponentEstimator(points, edges, pdf, interpolator_kwargs=kw)
    target = np.array([case["target"]])
    if where == "outside":
        o.raises(ValueError, est, target, what="outside in 3d")
        return ["outside"], True
    if where == "inside" and any((p == target[0]).all() for p in points) and g["kind"] != "product":
        # up to rounding
        return ["corner"], False
    result = np.asarray(est(target), float)
    o.shape_is(result, [1] + list(pdf.shape[1:]), "result")
    o.check(np.all(np.isfinite(result) & (result >= 0)), "not finite or negative")
    o.close((result * widths(case)).sum(axis=-1), np.ones(result.shape[:-1]), "normalisation", rtol=1e-9)
    w = np.diff(edges).max()
    for r, p in zip(result.reshape(-1, len(mids)), at(target[0]).reshape(-1, len(mids))):
        (m, s), (mu, sig) = moments(case, r), moments(case, p)
        o.check(abs(m - mu) < 0.5 * w and abs(s - sig) < 0.5 * w, f"mean {m}, expected {mu}; width {s}, expected {sig}")
    return ["inside", g["kind"]], True


def normalised(case):
    """the same without any exception"""
    points, pdf, edges = grids.array(case["grid"]), templates(case), np.array(case["edges"])
    result = np.asarray(estimator(case, points, pdf, edges)(np.array([case["target"]])))
    total = (result * widths(case)).sum(axis=-1)
    o.check(np.all(np.abs(total - 1) < 1e-9), f"normalisation is {total.tolist()}")
    return [case["method"]], True


def narrow(method):
    """distributions with a single filled bin, which end up between the centers of the bins"""
    edges, pdf = {
        "moment": ([0.0, 0.5, 1.8, 3.1, 4.0], [[0.0, 0.0, 0.0, 2.0], [1.0, 0.0, 0.0, 0.0]]),
        "quantile": ([0.0, 1.4, 2.8, 4.6, 6.0], [[0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 2.0]]),
    }[method]
    return dict(
        grid=dict(dim=1, kind="1d", points=[[0.0], [1.0]], flat=False, dtype="f8"), norm="area", shape=[],
        edges=edges, kind="table", method=method, pdf=pdf, target=[0.5], default=False,
    )


SUBS = [
    Sub("quantile", case_strategy(methods=("quantile",), where=("inside", "inside", "point", "inside", "outside")),
        estimate, 700, 12000, shards=3),
    Sub("moment", case_strategy(methods=("moment",)), estimate, 1400, 25000, shards=3),
    Sub("shape", shape_case(), shape_of_peaks, 500, 8000, shards=2),
    Sub("three dimensions", three_case(), three, 150, 3000, shards=2),
    # known findings, one specific input each
    Sub("narrow moment", None, normalised, 0, 0, fixed=[narrow("moment")]),
    Sub("narrow quantile", None, normalised, 0, 0, fixed=[narrow("quantile")]),
]
