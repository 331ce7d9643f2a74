import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Skip, Sub
from pyirf.sensitivity import relative_sensitivity
from pyirf.statistics import li_ma_significance

RULE = (
    "on / off counts (weighted, zero, small and large backgrounds, no or negative excess, nan),"
    " ratios alpha, required significances, minimum signal and minimum excess as scalars and arrays"
    " of broadcastable shapes, Li & Ma and custom significance functions; non-trivial: finite result"
)
ASSUMPTIONS = ["significances above 0.5 sigma and counts up to 1e13, so that the solution is well conditioned"]

NAMES = ["n_on", "n_off", "alpha", "min_significance", "min_signal_events", "min_excess_over_background"]
DEFAULTS = dict(min_significance=5, min_signal_events=10, min_excess_over_background=0.05)


@st.composite
def case_strategy(draw):
    n, m = gen.count(draw, 1, 4, 40), draw(st.integers(1, 3))
    shape = draw(st.sampled_from([[], [], [n], [n], [m, n]]))
    value = dict(
        n_off=st.one_of(st.integers(0, 30), st.sampled_from([0, 0.0, 0.5, 1.0, 1e-3, 1e7, float("nan")]),
                        st.floats(-2, 7).map(lambda x: 10**x)),
        excess=st.one_of(st.floats(-2, 5).map(lambda x: 10**x), st.floats(0.1, 100),
                         st.sampled_from([0, -1.0, 1e-6, 1e6, 1e-9, 1e-11, 1e10, 1e13])),
        alpha=st.one_of(st.sampled_from([0.2, 1.0, 0.05, 1 / 3, 20, 1e-4]), st.floats(0.001, 3)),
        min_significance=st.one_of(st.just(5), st.just(3.0), st.floats(0.5, 8), st.sampled_from([12, 50.0])),
        min_signal_events=st.one_of(st.sampled_from([10, 1, 0, 25.5, 0.1, 5000]), st.floats(0, 100)),
        min_excess_over_background=st.one_of(st.sampled_from([0.05, 0.01, 0.0, 0.5, 2.0, 30]), st.floats(0, 3)),
    )
    values, shapes = {}, {}
    for name, strat in value.items():
        # an array, constant, or broadcast along the first axis
        kinds = ["scalar", "full"] if name in ("excess", "n_off") else ["scalar", "scalar", "full"]
        kind = draw(st.sampled_from(kinds + (["row", "column"] if len(shape) == 2 else [])))
        s = {"scalar": [], "full": shape, "row": shape[1:], "column": shape[:1] + [1]}[kind]
        shapes[name] = s
        values[name] = [draw(strat) for _ in range(int(np.prod(s)))]
    return dict(
        shapes=shapes, values=values, used=[draw(st.booleans()) for _ in range(3)],
        function=draw(st.sampled_from(["default", "default", "li_ma", "naive", "sqrt"])),
        as_list=draw(st.booleans()), zero_on=gen.rare(draw, 8), positional=draw(st.booleans()),
    )


def naive(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1)


def sqrt(n_on, n_off, alpha):
    return np.sqrt(np.maximum(n_on - alpha * n_off, 0) * 3)


def li_ma_long(n_on, n_off, alpha):
    L = np.longdouble
    a, b, r = np.asarray(n_on, L), np.asarray(n_off, L), np.asarray(alpha, L)
    with np.errstate(all="ignore"):
        t1 = np.where(a > 0, a * np.log((1 + r) / r * (a / (a + b))), 0)
        t2 = np.where(b > 0, b * np.log((1 + r) * (b / (a + b))), 0)
    return np.where(a > r * b, np.sqrt(np.maximum(2 * (t1 + t2), 0)), 0)


FUNCTIONS = {"default": li_ma_long, "li_ma": li_ma_long, "naive": naive, "sqrt": sqrt}


def solve(func, n_signal, n_off, alpha, target):
    """smallest relative flux with the significance, by bisection in log space"""
    lo, hi = np.full(n_signal.shape, np.longdouble(-40)), np.full(n_signal.shape, np.longdouble(40))
    bkg = alpha.astype(np.longdouble) * n_off
    for _ in range(75):
        mid = (lo + hi) / 2
        above = func(10**mid * n_signal + bkg, n_off, alpha) >= target
        hi, lo = np.where(above, mid, hi), np.where(above, lo, mid)
    return (10**hi).astype(float)


def relative(case):
    arrays = {k: np.array(case["values"][k], float).reshape(case["shapes"][k]) for k in case["values"]}
    kwargs = {}
    for name, used in zip(DEFAULTS, case["used"]):
        if not used:
            arrays[name] = np.array(float(DEFAULTS[name]))
    n_off, alpha = arrays["n_off"], arrays["alpha"]
    with np.errstate(all="ignore"):
        n_on = arrays.pop("excess") + alpha * n_off
    if case["zero_on"]:
        n_on = n_on * 0
    arrays["n_on"] = n_on
    if np.any(n_on < 0):
        n_on = np.where(n_on < 0, 0, n_on)
        arrays["n_on"] = n_on
    call = dict(arrays)
    for name, used in zip(DEFAULTS, case["used"]):
        if not used:
            del call[name]
    call = {k: (v.item() if v.ndim == 0 else v.tolist() if case["as_list"] else v.copy())
            for k, v in call.items()}
    func = {"default": None, "li_ma": li_ma_significance, "naive": naive, "sqrt": sqrt}[case["function"]]
    if func is not None:
        call["significance_function"] = func
    positional = []
    if case["positional"]:
        positional = [call.pop(k) for k in ("n_on", "n_off", "alpha")]
    result = relative_sensitivity(*positional, **call)
    full = np.broadcast_arrays(*[arrays[k] for k in NAMES])
    shape = full[0].shape
    o.shape_is(result, shape, "relative sensitivity")
    n_on, n_off, alpha, target, min_signal, min_excess = [np.asarray(x).reshape(-1) for x in full]
    result = np.asarray(result, dtype=float).reshape(-1)
    nan = np.isnan(n_on) | np.isnan(n_off)
    o.check(np.all(np.isnan(result[nan])), "not nan for nan counts")
    bkg = alpha * n_off
    n_signal = n_on - bkg
    # only rounding error remains
    close = np.abs(n_signal) <= 1e-9 * np.abs(n_on)
    none = ~nan & ~close & (n_signal <= 0)
    o.check(np.all(np.isinf(result[none]) & (result[none] > 0)), f"not infinite without excess: {result[none]}")
    zero = ~nan & (n_on == 0) & (n_off == 0)
    o.check(np.all(np.isinf(result[zero])), "not infinite without events")
    ok = ~nan & ~close & (n_signal > 0)
    if ok.any():
        n_signal, n_off, alpha, target = n_signal[ok], n_off[ok], alpha[ok], target[ok]
        bkg = bkg[ok]
        f = FUNCTIONS[case["function"]]
        r_sig = solve(f, n_signal, n_off, alpha, target)
        r_min = np.maximum(min_signal[ok], min_excess[ok] * bkg) / n_signal
        # relative accuracy of n_signal, root finding: 1e-11 absolute
        rtol = 1e-5
        o.close(result[ok], np.maximum(r_sig, r_min), "relative sensitivity", rtol=rtol, atol=1e-11)
        big = result[ok] > 1e-5
        s = f(n_signal * result[ok] + bkg, n_off, alpha)
        o.check(np.all(s[big] >= target[big] * (1 - 1e-4)), "flux is not significant")
    labels = []
    if ok.any():
        labels += ["limited by significance"] if np.any(r_sig > r_min) else []
        labels += ["limited by events"] if np.any(r_sig < r_min) else []
        labels += ["small background"] if np.any((bkg < 1) & (bkg > 0)) else []
        labels += ["no background"] if np.any(bkg == 0) else []
        labels += ["background > 1000"] if np.any(bkg > 1000) else []
    if nan.any():
        labels.append("nan")
    if none.any():
        labels.append("no excess")
    if shape:
        labels.append("array")
    labels.append(case["function"])
    return labels, bool(ok.any())


@st.composite
def invalid_case(draw):
    return dict(
        n_on=draw(st.sampled_from([-1.0, -1e-3, 5.0])), n_off=draw(st.sampled_from([-1.0, -0.5, 20.0])),
        array=draw(st.booleans()), alpha=draw(st.sampled_from([0.2, 1.0])),
    )


def invalid(case):
    on, off = case["n_on"], case["n_off"]
    if on > 0 and off > 0:
        off = -off
    if case["array"]:
        on, off = np.array([3.0, on]), np.array([4.0, off])
    o.raises(ValueError, relative_sensitivity, on, off, case["alpha"], what="negative counts")
    return [], True


FIXED = [
    # outside of the initially searched interval
    dict(shapes=dict(n_off=[], excess=[], alpha=[], min_significance=[], min_signal_events=[], min_excess_over_background=[]),
         values=dict(n_off=[1.001], excess=[1.0], alpha=[0.001], min_significance=[5], min_signal_events=[0.1],
                     min_excess_over_background=[0.0]),
         used=[True, True, True], function="default", as_list=False, zero_on=False, positional=True),
    dict(shapes=dict(n_off=[], excess=[], alpha=[], min_significance=[], min_signal_events=[], min_excess_over_background=[]),
         values=dict(n_off=[0.0], excess=[1e-6], alpha=[0.2], min_significance=[5], min_signal_events=[10],
                     min_excess_over_background=[0.05]),
         used=[True, True, True], function="default", as_list=False, zero_on=False, positional=True),
    # was nan, root finding did not converge within 100 iterations
    dict(shapes=dict(n_off=[], excess=[], alpha=[], min_significance=[], min_signal_events=[], min_excess_over_background=[]),
         values=dict(n_off=[1e7], excess=[1.0], alpha=[1.2498807416295576], min_significance=[5], min_signal_events=[10],
                     min_excess_over_background=[0.05]),
         used=[False, False, False], function="naive", as_list=False, zero_on=False, positional=False),
]

SUBS = [
    Sub("relative", case_strategy(), relative, 3000, 60000, shards=7, fixed=FIXED),
    Sub("invalid", invalid_case(), invalid, 40, 400),
]
