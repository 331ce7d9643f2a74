import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Skip, Sub
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration

RULE = (
    "random normalized dispersion matrices (also with empty true energy bins) and new true energy"
    " bins (the same, merged or arbitrary inside of the old range) and reconstructed energy bins"
    " (covering everything, aligned with the migration bins, partial, outside), in all units;"
    " non-trivial: more than one migration bin and the new true bins differ from the old ones or"
    " there is more than one offset bin"
)


@st.composite
def base(draw):
    e = gen.edges(draw, 0.1, 10, 2, 6, log=draw(st.booleans()))
    m = gen.edges(draw, 0.2, 5, 2, 8, log=draw(st.booleans()), many=60)
    n_fov = gen.count(draw, 1, 3, 10)
    n = (len(e) - 1) * (len(m) - 1) * n_fov
    return dict(
        e=e, m=m, n_fov=n_fov, content=gen.floats(draw, n, 0.01, 1),
        zeros=gen.ints(draw, draw(st.integers(0, 4)), 0, n - 1),
        empty=draw(st.integers(0, len(e) - 2)) if gen.rare(draw, 3) else None,
        units=[gen.unit(draw, gen.E_UNITS) for _ in range(3)],
        keep=draw(st.lists(st.booleans(), min_size=len(e), max_size=len(e))),
        kind=draw(st.sampled_from(["merged", "merged", "same", "arbitrary"])),
        new=gen.edges(draw, e[0], e[-1], 1, 5),
        reco=gen.edges(draw, e[0] * m[0] * 0.5, e[-1] * m[-1] * 1.5, 1, 8, log=True),
        inf=draw(st.booleans()), m_keep=draw(st.lists(st.booleans(), min_size=len(m), max_size=len(m))),
        row=draw(st.integers(0, 10)),
        # narrow true energy bins next to the first edge
        narrow=draw(st.lists(st.floats(1e-5, 1e-2), max_size=2)) if draw(st.integers(0, 2)) == 2 else [],
    )


def matrix(case):
    n_e, n_m = len(case["e"]) - 1, len(case["m"]) - 1
    c = np.array(case["content"])
    if case["kind"] != "arbitrary":
        c[case["zeros"]] = 0
    c = c.reshape(n_e, n_m, case["n_fov"])
    if case["empty"] is not None and case["kind"] != "arbitrary":
        c[case["empty"]] = 0
    norm = c.sum(axis=1, keepdims=True)
    prob = np.divide(c, norm, out=np.zeros_like(c), where=norm > 0)
    return prob, prob / np.diff(case["m"])[None, :, None]


def new_true(case):
    e = case["e"]
    if case["kind"] == "same":
        return list(e)
    if case["kind"] == "merged":
        new = [x for x, k in zip(e, case["keep"]) if k]
        return new if len(new) > 1 else [e[0], e[-1]]
    new = case["new"]
    return sorted({*new, *(new[0] + x * (new[1] - new[0]) for x in case["narrow"])})


def run(case, disp, new, reco):
    us = case["units"]
    before = disp.copy()
    r = energy_dispersion_to_migration(
        disp, gen.q(case["e"], "TeV", us[0]), np.array(case["m"]),
        gen.q(new, "TeV", us[1]), gen.q(reco, "TeV", us[2]))
    o.same(disp, before, "dispersion matrix after call")
    o.shape_is(r, (len(new) - 1, len(reco) - 1, case["n_fov"]), "migration matrix")
    return o.value(r, None, "migration matrix")


def conservation(case):
    prob, disp = matrix(case)
    e, m = np.array(case["e"]), np.array(case["m"])
    new = new_true(case)
    reco = list(case["reco"])
    if case["inf"]:
        reco = [0.0] + reco + [float("inf")]
    r = run(case, disp, new, reco)
    o.check(np.all(np.isfinite(r)), "result is not finite")
    reco = np.array(reco)
    for i in range(len(new) - 1):
        center = 0.5 * (new[i] + new[i + 1])
        lo, hi = center * m[0], center * m[-1]
        if case["kind"] == "arbitrary":
            filled = np.ones(case["n_fov"])
        else:
            a, b = case["e"].index(new[i]), case["e"].index(new[i + 1])
            filled = (prob[a:b].sum(axis=(0, 1)) > 0).astype(float)
        if reco[0] <= lo and reco[-1] >= hi:
            o.close(r[i].sum(axis=0), filled, f"total probability in true energy bin {i}",
                    rtol=1e-7, atol=1e-7)
        o.close(r[i][:, filled == 0], np.zeros(r[i][:, filled == 0].shape),
                f"empty true energy bin {i}", rtol=0, atol=1e-12)
        # nothing outside of the range of migration
        out = (reco[1:] < lo * (1 - 1e-9)) | (reco[:-1] > hi * (1 + 1e-9))
        o.close(r[i][out], np.zeros(r[i][out].shape), "outside of the migration range", rtol=0, atol=1e-9)
    # merged bins of reconstructed energy
    if len(reco) > 2:
        merged = run(case, disp, new, [reco[0]] + list(reco[2:]))
        exp = np.concatenate([r[:, :2].sum(axis=1, keepdims=True), r[:, 2:]], axis=1)
        o.close(merged, exp, "merged reconstructed energy bins", rtol=1e-7, atol=1e-7)
    # bins in true energy along the old edges and offsets are independent of the others
    if case["kind"] != "arbitrary":
        i = case["row"] % (len(new) - 1)
        one = run(case, disp, [new[i], new[i + 1]], reco)
        o.close(one[0], r[i], "single true energy bin", rtol=1e-7, atol=1e-9)
    f = case["row"] % case["n_fov"]
    single = run({**case, "n_fov": 1}, disp[:, :, f:f + 1].copy(), new, reco)
    o.close(single[:, :, 0], r[:, :, f], "single offset bin", rtol=1e-7, atol=1e-9)
    return [case["kind"]] + (["inf"] if case["inf"] else []), \
        len(m) > 2 and (case["kind"] != "same" or case["n_fov"] > 1)


def aligned(case):
    """reconstructed energy bins aligned with the migration bins: exact sums"""
    if case["kind"] == "arbitrary":
        case["kind"] = "merged"
    prob, disp = matrix(case)
    m = np.array(case["m"])
    new = new_true(case)
    i = case["row"] % (len(new) - 1)
    center = 0.5 * (new[i] + new[i + 1])
    knots = [k for k in range(len(m)) if case["m_keep"][k]]
    if len(knots) < 2:
        knots = [0, len(m) - 1]
    r = run(case, disp, new, [center * m[k] for k in knots])
    a, b = case["e"].index(new[i]), case["e"].index(new[i + 1])
    p = prob[a:b].sum(axis=0)
    norm = p.sum(axis=0, keepdims=True)
    p = np.divide(p, norm, out=np.zeros_like(p), where=norm > 0)
    exp = np.array([p[x:y].sum(axis=0) for x, y in zip(knots[:-1], knots[1:])])
    o.close(r[i], exp, f"true energy bin {i}", rtol=1e-7, atol=1e-7)
    return [case["kind"], f"{b - a} merged bins"], len(m) > 2 and (b - a > 1 or case["n_fov"] > 1)


SUBS = [
    Sub("conservation", base(), conservation, 900, 20000, shards=4),
    Sub("aligned", base(), aligned, 900, 20000, shards=4),
]
