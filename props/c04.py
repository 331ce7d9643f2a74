import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Skip, Sub
from pyirf.binning import resample_histogram1d

RULE = (
    "1 to 3 dimensional histograms (also empty ones, integers and with units) with random bins,"
    " resampled along any axis to the same, coarser, finer, shifted and non-overlapping bins in"
    " other units; non-trivial: the new bins differ from the old ones and the histogram is not"
    " empty"
)


@st.composite
def resample_case(draw):
    e = gen.edges(draw, 0.1, 10, 2, 8, log=draw(st.booleans()), many=60)
    n = len(e) - 1
    kind = draw(st.sampled_from(
        ["same", "coarse", "fine", "outer", "random", "outside", "partial", "overflow"]))
    if kind == "overflow":
        if n < 4:
            e = [e[0] + (e[-1] - e[0]) * k / 4 for k in range(5)]
            n = 4
        inf = float("inf")
        e = [draw(st.sampled_from([-inf, e[0]]))] + e[1:-1] + [inf]
        keep = draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1))
        new = [-inf] + [x for x, k in zip(e[1:-1], keep) if k] + [inf]
    elif kind == "same":
        new = list(e)
    elif kind == "coarse":
        keep = draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1))
        new = [e[0]] + [x for x, k in zip(e[1:-1], keep) if k] + [e[-1]]
    elif kind == "fine":
        new = sorted(set(e + gen.floats(draw, draw(st.integers(1, 5)), e[0], e[-1])))
    elif kind == "outer":
        new = [e[0] * 0.5] + list(e) + [e[-1] * 2, e[-1] * 3]
    elif kind == "outside":
        new = draw(st.sampled_from([[e[-1] * 1.5, e[-1] * 2, e[-1] * 3], [e[0] * 0.1, e[0] * 0.5]]))
    elif kind == "partial":
        new = [e[1], *e[2:]] if n > 1 and draw(st.booleans()) else list(e[:-1])
        if len(new) < 2:
            new = list(e)
    else:
        new = gen.edges(draw, e[0] * 0.8, e[-1] * 1.2, 1, 8)
    extra = draw(st.sampled_from([[], [], [1], [2], [3], [2, 3]]))
    axis = draw(st.integers(0, len(extra)))
    size = n * int(np.prod(extra)) if extra else n
    # e.g. differences of histograms have negative contents
    lowest = -100.0 if gen.rare(draw, 4) else 0.0
    data = gen.floats(draw, size, lowest, 100, [0.0, 1.0, lowest])
    data2 = gen.floats(draw, size, lowest, 100)
    return dict(
        edges=e, new=new, kind=kind, extra=extra, axis=axis, data=data, data2=data2,
        negative_axis=draw(st.booleans()), factor=draw(st.sampled_from([0.5, 3.0, 1e-3, 1e4])),
        dtype=draw(st.sampled_from(["f8", "f8", "f8", "i8", "f4", "i4", "i4", "i1", "u1", "u2"])),
        zero_slice=gen.rare(draw, 4), zero_all=gen.rare(draw, 10),
        data_unit=draw(st.sampled_from([None, None, "s-1", "m2"])),
        old_unit=gen.unit(draw, gen.E_UNITS), new_unit=gen.unit(draw, gen.E_UNITS),
        plain=draw(st.booleans()), default_axis=draw(st.booleans()),
    )


def resample(case):
    n = len(case["edges"]) - 1
    axis = case["axis"]
    shape = list(case["extra"])
    shape.insert(axis, n)
    data = np.array(case["data"]).reshape(shape)
    data2 = np.array(case["data2"]).reshape(shape)
    if case["dtype"] != "f8":
        if case["dtype"] in ("i4", "i8"):
            # the sum does not fit into 32 bits
            data = data * 2e7
        if case["dtype"][0] == "u":
            data = np.abs(data)
        data, data2 = np.round(data).astype(case["dtype"]), np.round(data2).astype(case["dtype"])
    if case["zero_slice"] and case["extra"]:
        view = np.moveaxis(data, axis, -1)
        view[(0,) * (view.ndim - 1)] = 0
    if case["zero_all"]:
        data[...] = 0
    if case["plain"]:
        old, new = np.array(case["edges"]), np.array(case["new"])
    else:
        old = gen.q(case["edges"], "TeV", case["old_unit"])
        new = gen.q(case["new"], "TeV", case["new_unit"])
    unit = case["data_unit"]

    ax = axis - len(shape) if case["negative_axis"] else axis
    kw = {} if axis == 0 and case["default_axis"] else {"axis": ax}

    def run(x):
        arg = x if unit is None else u.Quantity(x, unit)
        before = np.array(x)
        r = resample_histogram1d(arg, old, new, **kw)
        o.same(x, before, "histogram after call")
        if unit is not None:
            o.check(r.unit == u.Unit(unit), f"unit is {r.unit}")
        exp_shape = list(shape)
        exp_shape[axis] = len(case["new"]) - 1
        o.shape_is(r, exp_shape, "resampled")
        return np.moveaxis(np.asarray(o.value(r, unit, "resampled"), float), axis, -1)

    res = run(data)
    d = np.moveaxis(np.asarray(data, float), axis, -1)
    total = d.sum(axis=-1)
    scale = float(np.max(np.abs(d), initial=0)) * n
    tol = dict(rtol=1e-9, scale=scale)
    e, ne = np.array(case["edges"]), np.array(case["new"])

    o.check(np.all(np.isfinite(res)), "result is not finite")
    # empty histograms stay empty
    empty = ~np.any(d, axis=-1)
    if empty.any():
        o.same(res[empty], np.zeros_like(res[empty]), "resampling of an empty histogram")
    # the total is conserved if everything is covered
    if ne[0] <= e[0] * (1 - 1e-9) or case["kind"] in ("same", "coarse", "fine", "outer", "overflow"):
        if ne[-1] >= e[-1]:
            o.close(res.sum(axis=-1), total, "total content", **tol)
    # bins between existing edges contain the sum of the old bins
    for k in range(len(ne) - 1):
        lo = np.isclose(e, ne[k], rtol=1e-12)
        hi = np.isclose(e, ne[k + 1], rtol=1e-12)
        if lo.any() and hi.any():
            i, j = int(np.argmax(lo)), int(np.argmax(hi))
            o.close(res[..., k], d[..., i:j].sum(axis=-1), "content of a merged bin", **tol)
        if ne[k] > e[-1] * (1 + 1e-9) or ne[k + 1] < e[0] * (1 - 1e-9):
            o.close(res[..., k], np.zeros(res[..., k].shape), "bin outside of the histogram",
                    rtol=0, atol=1e-12 * max(scale, 1e-300))
    # linear in the content
    f = case["factor"]
    if case["dtype"] == "f8":
        o.close(run(data * f + data2), res * f + run(data2), "linear combination",
                rtol=1e-8, scale=(f + 1) * 100 * n)
    # a constant density is interpolated exactly
    if case["dtype"] == "f8" and np.all(np.isfinite(e)) and np.all(np.isfinite(ne)):
        constant = np.broadcast_to(f * np.diff(e), d.shape)
        inside = np.clip(ne, e[0], e[-1])
        o.close(run(np.moveaxis(constant, -1, axis).copy()), np.broadcast_to(f * np.diff(inside), res.shape),
                "constant density", rtol=1e-7, scale=f * (e[-1] - e[0]))
    # each slice is independent
    if case["extra"]:
        flat = d.reshape(-1, n)
        k = len(flat) - 1
        one = resample_histogram1d(flat[k].copy(), old, new)
        o.close(one, res.reshape(-1, res.shape[-1])[k], "slice on its own", rtol=1e-9, scale=scale)
    return [case["kind"], f"ndim {len(shape)}", f"axis {axis}"] + (["empty histogram"] if empty.any() else []), \
        case["kind"] != "same" and bool(total.any())


SUBS = [Sub("resample", resample_case(), resample, 3200, 60000, shards=8)]
