import astropy.units as u
import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Sub
from pyirf.statistics import li_ma_significance

RULE = (
    "on / off counts (integers and weighted floats, zero, tiny, huge, n_on equal or close to"
    " alpha * n_off) and ratios alpha between 1e-4 and 10 as scalars, lists and arrays of different"
    " broadcastable shapes; non-trivial: any significance larger than 0"
)

COUNT = st.one_of(
    st.integers(0, 20), st.sampled_from([0, 1, 0.0, 1e-3, 1e-9, 1e6, 1e9, 1e12]),
    st.floats(1e-3, 5, allow_subnormal=False), st.floats(0, 5000, allow_subnormal=False),
    st.floats(0, 9).map(lambda x: 10**x),
)
ALPHA = st.one_of(
    st.sampled_from([0.2, 1.0, 1, 0.1, 1 / 3, 0.5, 2.0]), st.floats(-4, 1).map(lambda x: 10**x)
)


@st.composite
def case_strategy(draw):
    # shapes of n_on, n_off, alpha: "" is a scalar
    n, m = gen.count(draw, 1, 5, 80), gen.count(draw, 1, 3, 10)
    if n * m > 200:
        m = 2
    shapes = draw(st.sampled_from([
        ("", "", ""), ("", "", ""), ("n", "n", ""), ("n", "n", "n"), ("n", "", ""), ("", "n", ""),
        ("", "", "n"), ("m1", "n", ""), ("n", "m1", ""), ("mn", "mn", "mn"), ("mn", "n", "m1"),
        ("1", "1", ""), ("0", "0", ""), ("0", "", ""), ("1", "mn", "n"), ("s", "s", "s"),
    ]))
    size = {"": (), "n": (n,), "m1": (m, 1), "mn": (m, n), "1": (1,), "0": (0,), "s": ()}
    shapes = [size[s] for s in shapes]
    out = []
    for k, s in enumerate(shapes):
        count = int(np.prod(s))
        out.append([draw(ALPHA if k == 2 else COUNT) for _ in range(count)])
    # some n_on close to / at / around alpha * n_off
    for i in range(len(out[0])):
        kind = draw(st.integers(0, 5))
        if kind < 3 and out[1] and out[2]:
            b = out[1][i % len(out[1])] * out[2][i % len(out[2])]
            out[0][i] = b if kind == 0 else b * (1 + draw(st.sampled_from([1e-15, -1e-15, 1e-9, 1e-3, -1e-3, 0.3])))
    # small expected background from a huge off region
    if out[0] and out[1] and out[2] and gen.rare(draw, 5):
        out[1] = [10 ** draw(st.floats(2, 9)) for _ in out[1]]
        out[2] = [10 ** draw(st.floats(-1, 1.7)) / out[1][i % len(out[1])] for i in range(len(out[2]))]
        out[0] = [draw(st.floats(0.3, 8)) * out[1][i % len(out[1])] * out[2][i % len(out[2])]
                  for i in range(len(out[0]))]
    return dict(
        shapes=[list(s) for s in shapes], on=out[0], off=out[1], alpha=out[2],
        as_type=[draw(st.sampled_from(["array", "array", "list", "int", "f4", "one", "percent"])) for _ in range(3)],
        default=draw(st.booleans()), keyword=draw(st.booleans()), factor=draw(st.sampled_from([2, 10, 0.5])),
    )


def make(values, shape, kind):
    a = np.array(values, dtype=float)
    if kind == "int":
        a = np.round(a)
        a = np.where(a > 1e15, 1e15, a).astype("i8")
    elif kind == "f4":
        a = a.astype("f4")
    a = a.reshape(shape)
    exact = a.astype(float)
    if kind in ("one", "percent"):
        # dimensionless quantities, e.g. columns read from files
        q = u.Quantity(a / u.Unit(kind).to(u.one), kind) if kind == "percent" else u.Quantity(a, u.one)
        return q, q.to_value(u.one)
    if shape == []:
        return a.item() if kind != "f4" else a[()], exact
    if kind == "list":
        return a.tolist(), exact
    return a, exact


def expected(on, off, alpha):
    """2 * (t1 + t2) of formula (17) and its rounding error in float64"""
    L = np.longdouble
    on, off, alpha = np.broadcast_arrays(on.astype(L), off.astype(L), alpha.astype(L))
    s2 = np.zeros(on.shape, dtype=L)
    err = np.zeros(on.shape, dtype=float)
    for i in np.ndindex(on.shape):
        a, b, r = on[i], off[i], alpha[i]
        total = a + b
        t1 = a * np.log((1 + r) / r * (a / total)) if a > 0 else L(0)
        t2 = b * np.log((1 + r) * (b / total)) if b > 0 else L(0)
        err[i] = 1e-13 * float(a + b + abs(t1) + abs(t2))
        s2[i] = 2 * (t1 + t2) if a > r * b else 0
    return np.maximum(s2, 0).astype(float), err


def li_ma(case):
    kinds = list(case["as_type"])
    args = [make(case[k], s, t) for k, s, t in zip(("on", "off", "alpha"), case["shapes"], kinds)]
    if kinds[2] == "int":
        args[2] = make(case["alpha"], case["shapes"][2], "array")
    (on, on_x), (off, off_x), (alpha, alpha_x) = args
    before = [np.array(a, copy=True) for a in (on, off)]
    if case["default"] and case["shapes"][2] == []:
        alpha, alpha_x = 0.2, np.array(0.2)
        s = li_ma_significance(on, off)
    elif case["keyword"]:
        s = li_ma_significance(n_off=off, alpha=alpha, n_on=on)
    else:
        s = li_ma_significance(on, off, alpha)
    for a, b in zip((on, off), before):
        o.same(np.asarray(getattr(a, "value", a)), b, "input after the call")
    shape = np.broadcast_shapes(*[x.shape for x in (on_x, off_x, alpha_x)])
    o.shape_is(s, shape, "significance")
    if all(list(x) == [] for x in (on_x.shape, off_x.shape, alpha_x.shape)):
        o.check(np.ndim(s) == 0, "no scalar returned for scalars")
    s = np.asarray(s, dtype=float)
    b_on, b_off, b_alpha = np.broadcast_arrays(on_x, off_x, alpha_x)
    # nothing observed at all is not defined by the formula
    defined = (b_on + b_off) > 0
    o.check(np.all(np.isfinite(s[defined])), f"not finite: {s}")
    o.check(np.all(s[defined] >= 0), f"negative: {s}")
    s2, err = expected(on_x, off_x, alpha_x)
    o.check(np.all(np.abs(s**2 - s2)[defined] <= (err + 1e-11 * s2)[defined]),
            f"formula 17: got {s}, expected {np.sqrt(s2)}")
    below = b_on < b_alpha * b_off * (1 - 1e-14)
    o.check(np.all(s[below] == 0), f"significance for less than expected background: {s}")
    # k times the exposure yields sqrt(k) times the significance
    k = case["factor"]
    scaled = np.asarray(li_ma_significance(on_x * k, off_x * k, alpha_x))
    o.check(np.all(np.abs(scaled**2 - k * s2)[defined] <= (k * (err + 1e-11 * s2))[defined]),
            f"scaling with the exposure: {scaled}, {s}")
    # more events in the on region are more significant
    more = np.asarray(li_ma_significance(on_x * 1.01 + 0.5, off_x, alpha_x))
    o.check(np.all((more**2 - s**2 >= -4 * err - 1e-11 * s2)[defined]), "not monotone in n_on")
    # the same for each of the elements
    for i in list(np.ndindex(shape))[:4]:
        if defined[i]:
            one = li_ma_significance(float(b_on[i]), float(b_off[i]), float(b_alpha[i]))
            o.close(one, s[i], "significance of a single element", rtol=1e-9, atol=1e-6 * s[i] + np.sqrt(err[i]))
    labels = []
    if shape == ():
        labels.append("scalar")
    if len({x.shape for x in (on_x, off_x, alpha_x)}) > 1 and shape:
        labels.append("broadcasting")
    if np.any(b_off == 0):
        labels.append("n_off = 0")
    if np.any(b_on == 0):
        labels.append("n_on = 0")
    if np.any(b_on < b_alpha * b_off):
        labels.append("below background")
    if np.any((np.abs(b_on - b_alpha * b_off) <= 1e-8 * b_on) & (b_on > 0)):
        labels.append("n_on at alpha * n_off")
    return labels, bool(np.any(s[defined] > 0))


FIXED = [
    # was nan, and not broadcasting
    dict(shapes=[[], [], []], on=[0.2 * 41], off=[41.0], alpha=[0.2], as_type=["array"] * 3, default=False, keyword=False, factor=2),
    dict(shapes=[[3], [], []], on=[0.0, 5.0, 30.0], off=[20.0], alpha=[0.2], as_type=["array"] * 3, default=False, keyword=False, factor=2),
    dict(shapes=[[], [3], []], on=[10.0], off=[0.0, 5.0, 300.0], alpha=[0.2], as_type=["list"] * 3, default=False, keyword=False, factor=2),
]

SUBS = [Sub("li_ma", case_strategy(), li_ma, 6400, 150000, shards=8, fixed=FIXED)]
