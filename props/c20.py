import math

import numpy as np
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Sub
from props.c05 import percentile
from pyirf.benchmarks import angular_resolution, energy_bias_resolution
from pyirf.benchmarks.energy_bias_resolution import (
    energy_resolution_absolute_68, inter_quantile_distance,
)

RULE = (
    "events with true and reconstructed energy and theta (also nan, none, outside of the bins and on"
    " edges) in bins of true or reconstructed energy, single and several quantiles, default and"
    " custom estimators; non-trivial: a bin with at least two different values"
)

SIGMA = 0.5 * math.erfc(1 / math.sqrt(2)), 1 - 0.5 * math.erfc(1 / math.sqrt(2))


@st.composite
def base(draw):
    n = gen.size(draw, 30, 120, 1200)
    e_axis = ev.axis(draw, "energy", gen.edges(draw, *gen.span(draw, *ev.ENERGY), 1, 5, log=True, many=100), log=True)
    kind = draw(st.sampled_from(["true", "reco", "default"]))
    quantiles = {}
    for _ in range(draw(st.integers(1, 5))):
        x = gen.pick(draw, [0.68, 0.5, 0.95], 0, 1)
        # columns are named by the percentage
        quantiles[f"{100 * x:.0f}"] = x
    quantiles = list(quantiles.values())
    return dict(
        e=e_axis, energy=ev.column(draw, e_axis, n), kind=kind,
        # true over reconstructed energy and vice versa
        mu=gen.floats(draw, n, 0.2, 5, [1.0], log=True), other_unit=gen.unit(draw, gen.E_UNITS),
        theta=gen.floats(draw, n, 0, 2, [0.0, 0.1]), theta_unit=gen.unit(draw, gen.ANG_UNITS),
        nan_at=[draw(st.integers(0, n - 1))] if n and gen.rare(draw, 5) else [],
        focus=draw(st.booleans()),
        quantile=draw(st.sampled_from([
            None, 0.5, 0.25, [0.5], [0.25, 0.5, 0.95], [0.9, 0.1], [0.0, 1.0], "np", "tuple", quantiles, quantiles,
            quantiles[0],
        ])), bulk=ev.bulk(draw, n),
        functions=draw(st.sampled_from(["default", "default", "mean", "abs68", "both"])),
        dtype=draw(st.sampled_from(["f8", "f8", "f4"])),
    )


def table(case):
    for k in ("energy", "mu", "theta"):
        case[k] = ev.expand(case[k], case["bulk"])
    energy = list(case["energy"])
    n = len(energy)
    if case["focus"] and n:
        energy = [energy[0] if k % 3 else x for k, x in enumerate(energy)]
    key = "true" if case["kind"] == "default" else case["kind"]
    other = {"true": "reco", "reco": "true"}[key]
    t = QTable()
    t[f"{key}_energy"] = ev.data(case["e"], energy)
    t[f"{other}_energy"] = gen.q(np.array(energy) * np.array(case["mu"]), "TeV", case["other_unit"])
    theta = np.array(case["theta"])
    t["theta"] = gen.q(theta, "deg", case["theta_unit"])
    if case["dtype"] == "f4":
        t["theta"] = t["theta"].astype("f4")
    t["gh_score"] = np.zeros(n)
    data, edges = ev.native(case["e"], energy)
    index = o.bins_of(data, edges)
    return t, key, index, len(edges) - 1


def check_bins(result, case, key):
    e = np.array(case["e"]["edges"])
    for k, x in (("low", e[:-1]), ("high", e[1:]), ("center", 0.5 * (e[1:] + e[:-1]))):
        o.close(result[f"{key}_energy_{k}"], x, k, unit="TeV")


def angular(case):
    t, key, index, n = table(case)
    for k in case["nan_at"]:
        t["theta"][k] = np.nan * t["theta"].unit
    kwargs = {} if case["kind"] == "default" else dict(energy_type=key)
    q = case["quantile"]
    default = SIGMA[1] - SIGMA[0]
    if q is None:
        quantiles = [default]
    elif q == "np":
        kwargs["quantile"], quantiles = np.float64(0.75), [0.75]
    elif q == "tuple":
        kwargs["quantile"], quantiles = (0.25, 0.8), [0.25, 0.8]
    else:
        kwargs["quantile"], quantiles = q, q if isinstance(q, list) else [q]
    before = t.copy()
    r = angular_resolution(t, ev.bins(case["e"]), **kwargs)
    for k in before.colnames:
        o.same(np.asarray(t[k]), np.asarray(before[k]), f"column {k} after the call")
    check_bins(r, case, key)
    o.check(len(r) == n, "number of rows")
    theta = t["theta"].to_value("deg").astype(float)
    o.same(r["n_events"], [np.sum(index == i) for i in range(n)], "n_events")
    rtol = 1e-5 if case["dtype"] == "f4" else 1e-9
    for p in quantiles:
        name = f"angular_resolution_{100 * p:.0f}"
        o.check(name in r.colnames, f"no column {name} in {r.colnames}")
        exp = [percentile(theta[index == i], 100 * p) for i in range(n)]
        o.close(r[name], exp, name, unit="deg", rtol=rtol, atol=1e-12)
    o.check(len([k for k in r.colnames if k.startswith("angular_res")]) == len(quantiles), "columns")
    return label(case, index, n, theta)


def label(case, index, n, values):
    labels = [case["kind"]]
    counts = [np.sum(index == i) for i in range(n)]
    if min(counts) == 0:
        labels.append("empty bin")
    if len(index) == 0:
        labels.append("empty")
    if len(index) > sum(counts):
        labels.append("events outside")
    if case["nan_at"]:
        labels.append("nan")
    return labels, any(len(set(values[index == i])) > 1 for i in range(n))


def energy(case):
    t, key, index, n = table(case)
    for k in case["nan_at"]:
        # not the energy used for the bins
        other = {"true": "reco", "reco": "true"}[key]
        t[f"{other}_energy"][k] = np.nan * t[f"{other}_energy"].unit
    kwargs = {} if case["kind"] == "default" else dict(energy_type=key)
    kind = case["functions"]
    error = t["reco_energy"].to_value("TeV") / t["true_energy"].to_value("TeV") - 1
    bias_f, res_f = (lambda v: percentile(v, 50)), (
        lambda v: (percentile(v, 100 * SIGMA[1]) - percentile(v, 100 * SIGMA[0])) / 2)
    if kind in ("mean", "both"):
        kwargs["bias_function"], bias_f = np.nanmean, (lambda v: sum(x for x in v if x == x) / max(sum(v == v), 1) if sum(v == v) else np.nan)
    if kind in ("abs68", "both"):
        kwargs["resolution_function"] = energy_resolution_absolute_68
        res_f = lambda v: percentile(np.abs(v), 100 * (SIGMA[1] - SIGMA[0]))
    before = t.copy()
    r = energy_bias_resolution(t, ev.bins(case["e"]), **kwargs)
    o.check(before.colnames == t.colnames, "columns changed")
    for k in before.colnames:
        o.same(np.asarray(t[k]), np.asarray(before[k]), f"column {k} after the call")
    check_bins(r, case, key)
    o.check(len(r) == n, "number of rows")
    o.same(r["n_events"], [np.sum(index == i) for i in range(n)], "n_events")
    groups = [error[index == i] for i in range(n)]
    o.close(r["bias"], [bias_f(g) if len(g) else np.nan for g in groups], "bias", rtol=1e-9, atol=1e-11)
    o.close(r["resolution"], [res_f(g) if len(g) else np.nan for g in groups], "resolution", rtol=1e-9, atol=1e-11)
    if len(error) and not np.all(np.isnan(error)):
        o.close(inter_quantile_distance(error), (percentile(error, 100 * SIGMA[1]) - percentile(error, 100 * SIGMA[0])) / 2,
                "inter_quantile_distance", rtol=1e-9, atol=1e-11)
        o.close(energy_resolution_absolute_68(error), percentile(np.abs(error), 100 * (SIGMA[1] - SIGMA[0])),
                "energy_resolution_absolute_68", rtol=1e-9, atol=1e-11)
    return label(case, index, n, error)


SUBS = [
    Sub("angular", base(), angular, 1600, 30000, shards=4),
    Sub("energy", base(), energy, 1600, 30000, shards=4),
]
