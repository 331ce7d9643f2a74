import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Sub
from props.c20 import SIGMA
from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion

RULE = (
    "normalised energy dispersions of random shape (also concentrated in few bins, with gaps, in the"
    " first or last bin, empty for some energies / offsets) with random non-uniform migration bins;"
    " non-trivial: the quantiles fall in at least two different migration bins"
)


@st.composite
def case_strategy(draw):
    n_e, n_m, n_f = gen.count(draw, 1, 4, 20), draw(st.integers(2, 12)), gen.count(draw, 1, 3, 10)
    if gen.rare(draw, 6):
        n_m = draw(st.integers(12, 120))
    return dict(
        migra=gen.edges(draw, *gen.span(draw, (0.2, 5), (0.9, 1.1), (1e-2, 100), (0.5, 30)), n_m, n_m, log=draw(st.booleans())),
        shape=[n_e, n_m, n_f], values=gen.floats(draw, n_e * n_m * n_f, 0, 1),
        kind=draw(st.sampled_from(["flat", "peaked", "gaps", "single", "empty"])),
        pos=gen.floats(draw, n_e * n_f, 0, 1), width=gen.floats(draw, n_e * n_f, 0.02, 0.5),
        layout=draw(st.sampled_from(["c", "f", "f4"])), shift=draw(st.sampled_from([0, 0, 0.3])),
    )


def build(case):
    n_e, n_m, n_f = case["shape"]
    h = np.array(case["values"]).reshape(case["shape"])
    migra = np.array(case["migra"])
    x = (np.arange(n_m) + 0.5) / n_m
    pos = np.array(case["pos"]).reshape(n_e, 1, n_f)
    width = np.array(case["width"]).reshape(n_e, 1, n_f)
    kind = case["kind"]
    if kind == "peaked":
        h = np.exp(-0.5 * ((x[None, :, None] - pos) / width) ** 2)
    elif kind == "gaps":
        h = np.where(h < 0.6, 0, h)
    elif kind == "single":
        h = np.zeros_like(h)
        for i in range(n_e):
            for j in range(n_f):
                h[i, min(int(pos[i, 0, j] * n_m), n_m - 1), j] = 1
    elif kind == "empty":
        h = np.where(pos < 0.5, 0, h)
    total = h.sum(axis=1, keepdims=True)
    p = np.divide(h, total, out=np.zeros_like(h), where=total > 0)
    return p, p / np.diff(migra)[None, :, None], migra


def quantile(p, migra, q):
    """lowest and largest allowed value for the quantile"""
    cdf = np.append(0, np.cumsum(p))
    # flat at the quantile, every value with this cdf is correct
    eps = 1e-9
    a, b = None, None
    for target, name in ((q - eps, "a"), (q + eps, "b")):
        i = 0
        while i < len(p) - 1 and cdf[i + 1] < target:
            i += 1
        if i == 0:
            # the distribution inside of the first bin is not specified
            value = (migra[0], migra[1])
        else:
            f = (target - cdf[i]) / p[i] if p[i] > 0 else 1
            x = migra[i] + min(max(f, 0), 1) * (migra[i + 1] - migra[i])
            value = (x, x)
        if name == "a":
            a = value[0]
        else:
            b = value[1]
    return a, b


def from_dispersion(case):
    p, edisp, migra = build(case)
    if case["layout"] == "f":
        edisp = np.asfortranarray(edisp)
    elif case["layout"] == "f4":
        edisp = edisp.astype("f8")
    before = edisp.copy(), migra.copy()
    bias, res = energy_bias_resolution_from_energy_dispersion(edisp, migra)
    o.same(edisp, before[0], "energy dispersion after the call")
    o.same(migra, before[1], "migration bins after the call")
    n_e, n_m, n_f = case["shape"]
    o.shape_is(bias, (n_e, n_f), "bias")
    o.shape_is(res, (n_e, n_f), "resolution")
    labels, several = [case["kind"]], False
    for i in range(n_e):
        for j in range(n_f):
            if p[i, :, j].sum() == 0:
                o.check(np.isnan(bias[i, j]) and np.isnan(res[i, j]), f"not nan for an empty bin: {bias[i, j]}, {res[i, j]}")
                labels.append("empty")
                continue
            lo, med, hi = [quantile(p[i, :, j], migra, q) for q in (SIGMA[0], 0.5, SIGMA[1])]
            tol = 1e-7
            o.check(med[0] - 1 - tol <= bias[i, j] <= med[1] - 1 + tol,
                    f"bias [{i}, {j}] is {bias[i, j]}, expected {med[0] - 1} to {med[1] - 1}")
            r = 0.5 * (hi[0] - lo[1]), 0.5 * (hi[1] - lo[0])
            o.check(max(r[0], 0) - tol <= res[i, j] <= r[1] + tol,
                    f"resolution [{i}, {j}] is {res[i, j]}, expected {r}")
            cdf = np.cumsum(p[i, :, j])
            several = several or len({int(np.searchsorted(cdf, q)) for q in (SIGMA[0], 0.5, SIGMA[1])}) > 1
            if lo[0] > migra[1]:
                labels.append("no quantile in the first bin")
            else:
                labels.append("quantile in the first bin")
    return labels, several


SUBS = [Sub("from_dispersion", case_strategy(), from_dispersion, 3200, 80000, shards=8)]
