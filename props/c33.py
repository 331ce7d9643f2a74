import os
import sys
import tempfile
import threading
import warnings

import numpy as np
from astropy.io.fits import BinTableHDU
from astropy.table import Table
from hypothesis import strategies as st

from harness import gen, grids, oracle as o, ops
from harness.core import Sub
import pyirf.io.gadf
import pyirf.spectral
from pyirf.interpolation import (
    DiscretePDFNearestNeighborSearcher, EffectiveAreaEstimator, EnergyDispersionEstimator, MomentMorphInterpolator,
    MomentMorphNearestSimplexExtrapolator, ParametrizedNearestSimplexExtrapolator, ParametrizedVisibleEdgesExtrapolator,
    PSFTableEstimator, QuantileInterpolator, RadMaxEstimator,
)
import astropy.units as u

warnings.simplefilter("ignore")

RULE = (
    "random sequences of operations from all parts of the library (event selection, responses, sensitivity, optimisation, files,"
    " interpolation) on random inputs, with repeated operations, changed results and another order; sequences of targets"
    " for one estimator; non-trivial: at least three different operations resp. targets inside and outside"
)
ASSUMPTIONS = ["the DATE card of exported files is the only output which depends on time"]

CONSTANTS = [k for k, v in vars(pyirf.spectral).items() if type(v).__module__.startswith("pyirf")]


def global_state():
    out = dict(
        random=str(np.random.get_state()), err=str(np.geterr()), printing=str(np.get_printoptions()), cwd=os.getcwd(),
        environ=str(sorted(os.environ.items())), units=len(u.get_current_unit_registry().all_units),
        aliases=str(sorted(u.get_current_unit_registry().aliases)), header=str(dict(pyirf.io.gadf.DEFAULT_HEADER)),
        filters=str(warnings.filters), files=str(sorted(os.listdir("."))),
    )
    for k in CONSTANTS:
        spec = getattr(pyirf.spectral, k)
        out[k] = str([(n, str(x), x.shape) for n, x, _ in ops.flatten(spec)])
    return out


@st.composite
def history_case(draw):
    names = sorted(ops.OPS)
    n = draw(st.integers(2, 6))
    steps = [[draw(st.sampled_from(names)), draw(st.integers(0, 10**6)), draw(st.booleans())] for _ in range(n)]
    # a different input for one of the operations
    steps.append([steps[0][0], draw(st.integers(0, 10**6)), draw(st.booleans())])
    return dict(steps=steps, order=draw(st.permutations(range(len(steps)))))


def overwrite(out):
    """change a result"""
    if isinstance(out, dict):
        for x in out.values():
            overwrite(x)
    elif isinstance(out, (list, tuple)):
        for x in out:
            overwrite(x)
    elif isinstance(out, BinTableHDU):
        out.header["TELESCOP"] = "changed"
        out.header["HDUCLAS2"] = "changed"
        out.header["CREATOR"] = "changed"
    elif isinstance(out, Table):
        for c in out.colnames:
            if out[c].dtype.kind in "fi" and len(out):
                out[c][...] = out[c][::-1] * 0
        out.meta["changed"] = True
    elif isinstance(out, np.ndarray) and out.flags.writeable and out.dtype.kind in "fi":
        out[...] = out * 0


#: parts of the edges and objects of gammapy are views of the input
VIEWS = ("edges", "gammapy")


def run_step(step, kept):
    name, seed, modify = step
    op = ops.OPS[name]
    inputs, call = op.make(np.random.default_rng(seed))
    before = ops.snapshot(inputs)
    state = global_state()
    out = call(**inputs)
    diff = ops.different(before, ops.snapshot(inputs))
    o.check(diff is None, f"{name}: input{diff}")
    result = ops.snapshot(dict(out=out))
    # the same objects again
    again = ops.snapshot(dict(out=call(**inputs)))
    diff = ops.different(result, again)
    o.check(diff is None, f"{name}: other result for the second call, {diff}")
    now = global_state()
    for k in state:
        o.check(state[k] == now[k], f"{name}: {k} was changed from {state[k]} to {now[k]}")
    if modify:
        overwrite(out)
        if name not in VIEWS:
            diff = ops.different(before, ops.snapshot(inputs))
            o.check(diff is None, f"{name}: input{diff} by a change of the result")
    else:
        kept.append((name, out, result))
    return result


def history(case):
    # nothing else creates files here
    back = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            return run_history(case)
        finally:
            os.chdir(back)


def run_history(case):
    steps = case["steps"]
    kept = []
    results = [run_step(s, kept) for s in steps]
    for k in case["order"]:
        diff = ops.different(results[k], run_step(steps[k], kept))
        o.check(diff is None, f"{steps[k][0]}: result depends on the calls before, {diff}")
    for name, out, result in kept:
        diff = ops.different(result, ops.snapshot(dict(out=out)))
        o.check(diff is None, f"{name}: an earlier result was changed by later calls, {diff}")
    return sorted({s[0] for s in steps}), len({s[0] for s in steps}) > 2


@st.composite
def thread_case(draw):
    names = sorted(ops.OPS)
    n = draw(st.integers(1, 4))
    steps = [[draw(st.sampled_from(names)), draw(st.integers(0, 10**6))] for _ in range(n)]
    # the same operations for other inputs at the same time
    steps += [[name, draw(st.integers(0, 10**6))] for name, _ in steps]
    return dict(steps=steps, rounds=draw(st.integers(2, 4)))


def threads(case):
    """results of several threads at once are those of a single one"""
    jobs = []
    for name, seed in case["steps"]:
        inputs, func = ops.OPS[name].make(np.random.default_rng(seed))
        jobs.append((name, inputs, func, ops.snapshot(dict(out=func(**inputs)))))
    barrier = threading.Barrier(len(jobs))
    results = [[] for _ in jobs]

    def work(k):
        _, inputs, func, _ = jobs[k]
        try:
            for _ in range(case["rounds"]):
                barrier.wait(60)
                results[k].append(func(**inputs))
        except threading.BrokenBarrierError:
            pass
        except Exception as e:
            results[k].append(e)
            barrier.abort()

    filters = warnings.filters[:]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(interval)
        # catch_warnings is not thread safe
        warnings.filters[:] = filters
        warnings._filters_mutated()
    for (name, _, _, expected), out in zip(jobs, results):
        for r in out:
            if isinstance(r, Exception):
                raise AssertionError(f"{name}: {type(r).__name__} with several threads: {r}") from r
            diff = ops.different(expected, ops.snapshot(dict(out=r)))
            o.check(diff is None, f"{name}: other result with several threads, {diff}")
    return sorted({s[0] for s in case["steps"]}), len({s[0] for s in case["steps"]}) > 1


ESTIMATORS = ["aeff", "radmax", "edisp quantile", "edisp moment", "psf quantile", "psf neighbor"]


@st.composite
def estimator_case(draw):
    g = draw(grids.grid(dims=(1, 1, 2), n_max=6))
    n = draw(st.integers(2, 6))
    return dict(
        grid=g, kind=draw(st.sampled_from(ESTIMATORS)), targets=[draw(grids.target(g)) for _ in range(n)],
        order=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6)), seed=draw(st.integers(0, 10**6)),
        fill=draw(st.sampled_from([None, "infer", 0.3])), visible=draw(st.booleans()), empty=draw(st.booleans()), modify=draw(st.booleans()),
    )


def create(case):
    rng = np.random.default_rng(case["seed"])
    pts = grids.array(case["grid"])
    n = len(pts)
    kind = case["kind"]
    extra = ParametrizedVisibleEdgesExtrapolator if case["visible"] else ParametrizedNearestSimplexExtrapolator
    if kind == "aeff":
        return EffectiveAreaEstimator(pts, ops.log_uniform(rng, 0.5, 1e4, n * 6).reshape(n, 3, 2) * u.m**2, extrapolator_cls=extra)
    if kind == "radmax":
        r = rng.uniform(0.1, 0.25, (n, 3, 2))
        r[rng.random(r.shape) < 0.2] = 0.3
        return RadMaxEstimator(pts, r, fill_value=case["fill"], extrapolator_cls=extra)
    cls = {"quantile": QuantileInterpolator, "moment": MomentMorphInterpolator,
           "neighbor": DiscretePDFNearestNeighborSearcher}[kind.split()[1]]
    kw = dict(interpolator_cls=cls, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)
    e = ops.increasing(rng, 0.2, 1, 10)
    width = np.diff(e) if kind.startswith("edisp") else np.diff(o.cone(np.deg2rad(e)))
    p = ops.distributions(rng, n, e, width, (2, 3))
    if case["empty"]:
        p[rng.random(p.shape[:-1]) < 0.2] = 0
    if kind.startswith("edisp"):
        return EnergyDispersionEstimator(pts, e, p, axis=-1, **kw)
    return PSFTableEstimator(pts, e * u.deg, p / u.sr, **kw)


def call(est, target):
    try:
        return ops.snapshot(dict(out=est(np.array([target]))))
    except ValueError as e:
        # e.g. degenerate grids
        return [("error", np.array(str(e)), "", None, ())]


def estimators(case):
    try:
        est = create(case)
    except Exception as e:
        if type(e).__name__ == "QhullError":
            return ["degenerate grid"], False
        raise
    fresh = [call(create(case), t) for t in case["targets"]]
    results, kept = [], []
    for k, t in enumerate(case["targets"]):
        try:
            kept.append(est(np.array([t])))
        except ValueError:
            kept.append(None)
        results.append(call(est, t))
        if case["modify"]:
            try:
                overwrite(est(np.array([t])))
            except ValueError:
                pass
    for k in case["order"]:
        results.append(call(est, case["targets"][k]))
    for k, r in enumerate(results):
        i = k if k < len(fresh) else case["order"][k - len(fresh)]
        diff = ops.different(fresh[i], r)
        o.check(diff is None, f"{case['kind']}: result for target {case['targets'][i]} depends on the calls before, {diff}")
    for k, out in enumerate(kept):
        if out is not None:
            diff = ops.different(fresh[k], ops.snapshot(dict(out=out)))
            o.check(diff is None, f"{case['kind']}: earlier result for target {case['targets'][k]} was changed, {diff}")
    where = {grids.position(case["grid"], t) for t in case["targets"]}
    return [case["kind"], f"{case['grid']['dim']}d"], {"inside", "outside"} <= where


SUBS = [
    Sub("history", history_case(), history, 240, 6000, shards=8),
    Sub("threads", thread_case(), threads, 120, 3000, shards=6),
    Sub("estimators", estimator_case(), estimators, 500, 12000, shards=4),
]
