import numpy as np
from astropy.table import QTable
import astropy.units as u
from hypothesis import assume, strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from props.c16 import FUNCTIONS, li_ma_long, naive, solve, sqrt
from pyirf.binning import create_histogram_table
from pyirf.sensitivity import calculate_sensitivity, estimate_background
from pyirf.statistics import li_ma_significance

RULE = (
    "signal / background histograms with integer, float and dimensionless columns, empty bins and"
    " further particle types; background events in, around and exactly on the limits of the ring,"
    " theta cut tables with different binning and units, weights, particle types; non-trivial:"
    " a finite sensitivity resp. background events inside of the ring"
)


@st.composite
def sens_case(draw):
    n = gen.count(draw, 1, 5, 40)
    return dict(
        edges=gen.edges(draw, *gen.span(draw, *ev.ENERGY), n, n, log=True), unit=gen.unit(draw, gen.E_UNITS),
        unit_b=gen.unit(draw, gen.E_UNITS),
        n_sig=gen.ints(draw, n, 0, 500), w_sig=gen.floats(draw, n, 0.01, 2000, [0.0, 1e-6, 5e4], log=True),
        n_bkg=gen.ints(draw, n, 0, 500), w_bkg=gen.floats(draw, n, 0.01, 3000, [0.0, 1e-3, 1e6], log=True),
        proton=gen.floats(draw, n, 0, 100), has_proton=draw(st.booleans()),
        types=[draw(st.sampled_from(["f8", "f8", "f4", "i8", "quantity", "percent"])) for _ in range(2)],
        alpha=gen.pick(draw, [0.2, 1.0, 0.05, 1 / 3, 1e-4], 0.01, 5, log=True),
        kwargs={k: v for k, v, p in [
            ("min_significance", draw(st.sampled_from([3.0, 5, 7.5, 40])), draw(st.booleans())),
            ("min_signal_events", draw(st.sampled_from([0, 1, 25.0, 3000])), draw(st.booleans())),
            ("min_excess_over_background", draw(st.sampled_from([0.0, 0.01, 0.5, 20])), draw(st.booleans())),
        ] if p},
        function=draw(st.sampled_from(["default", "default", "li_ma", "naive", "sqrt"])),
        mismatch=draw(st.sampled_from(["", "", "", "", "low", "high", "center", "length", "unit"])),
    )


def weighted(values, kind):
    a = np.array(values)
    if kind == "quantity":
        return u.Quantity(a, u.one)
    if kind == "percent":
        return u.Quantity(a * 100, u.percent)
    return np.round(a).astype(kind) if kind == "i8" else a.astype(kind)


def table(case, n, w, kind, unit="unit"):
    e = gen.q(case["edges"], "TeV", case[unit])
    t = QTable()
    t["reco_energy_low"] = e[:-1]
    t["reco_energy_high"] = e[1:]
    t["reco_energy_center"] = 0.5 * (e[1:] + e[:-1])
    t["n"] = np.array(n)
    t["n_weighted"] = weighted(w, kind)
    return t


def sensitivity(case):
    sig = table(case, case["n_sig"], case["w_sig"], case["types"][0])
    bkg = table(case, case["n_bkg"], case["w_bkg"], case["types"][1])
    if case["has_proton"]:
        bkg["n_proton"] = np.array(case["proton"])
        bkg["n_proton_weighted"] = 2 * np.array(case["proton"])
        sig["n_gamma"] = sig["n"]
    kind = case["mismatch"]
    if kind in ("low", "high", "center"):
        k = "reco_energy_" + kind
        col = bkg[k].copy()
        col[len(col) // 2] *= 1.01
        bkg[k] = col
    elif kind == "length" and len(sig) > 1:
        bkg = bkg[:-1]
    elif kind == "unit" and case["unit_b"] != case["unit"]:
        # the same numbers in another unit
        for k in ("low", "high", "center"):
            k = "reco_energy_" + k
            bkg[k] = u.Quantity(bkg[k].value, case["unit_b"])
    else:
        kind = ""
    kwargs = dict(case["kwargs"])
    func = {"default": None, "li_ma": li_ma_significance, "naive": naive, "sqrt": sqrt}[case["function"]]
    if func is not None:
        kwargs["significance_function"] = func
    alpha = case["alpha"]
    if kind:
        o.raises(ValueError, calculate_sensitivity, sig, bkg, alpha, what=f"different binning ({kind})", **kwargs)
        return ["different binning"], True
    before = sig.copy(), bkg.copy()
    s = calculate_sensitivity(sig, bkg, alpha=alpha, **kwargs)
    for t, b in zip((sig, bkg), before):
        o.check(t.colnames == b.colnames, "columns of the input changed")
        for k in b.colnames:
            o.same(u.Quantity(t[k]), u.Quantity(b[k]), f"column {k} of the input after the call")
    o.check(len(s) == len(sig), "number of rows")
    for k in ("low", "high", "center"):
        k = "reco_energy_" + k
        o.close(s[k], sig[k].to_value("TeV"), k, unit="TeV")
    ws, wb = [np.asarray(u.Quantity(t["n_weighted"]).to_value(u.one), float) for t in (sig, bkg)]
    o.close(s["n_background"], np.array(case["n_bkg"], float), "n_background")
    o.close(s["n_background_weighted"], wb, "n_background_weighted")
    if case["has_proton"]:
        o.close(s["n_proton"], np.array(case["proton"]), "n_proton")
        o.close(s["n_proton_weighted"], 2 * np.array(case["proton"]), "n_proton_weighted")
    target = float(kwargs.get("min_significance", 5))
    min_signal = float(kwargs.get("min_signal_events", 10))
    min_excess = float(kwargs.get("min_excess_over_background", 0.05))
    f = FUNCTIONS[case["function"]]
    rel = o.value(s["relative_sensitivity"], None, "relative_sensitivity").astype(float)
    # excess not lost in the rounding of the sum
    rtol = 1e-5 + (2e-7 if "f4" in case["types"] else 0)
    ok = ws > (1e-3 if "f4" in case["types"] else 1e-9) * (1 + alpha * wb)
    # in single precision, the excess can be the rounding error of alpha * n_off
    limit = 1.0 if "f4" in case["types"] else 1e5 if "percent" in case["types"] else np.inf
    o.check(np.all(rel[ws == 0] >= limit), "finite sensitivity without signal")
    if not ok.any():
        return ["no signal"], False
    r_sig = solve(f, ws[ok], wb[ok], np.full(ok.sum(), alpha), np.full(ok.sum(), target))
    exp = np.maximum(r_sig, np.maximum(min_signal, min_excess * alpha * wb[ok]) / ws[ok])
    if "f4" in case["types"]:
        rtol = 1e-5 + 1e-6 * np.max((ws[ok] + alpha * wb[ok]) / ws[ok])
    o.close(rel[ok], exp, "relative_sensitivity", rtol=rtol, atol=1e-11)
    o.close(s["n_signal"][ok], np.array(case["n_sig"])[ok] * rel[ok], "n_signal", rtol=1e-6)
    o.close(s["n_signal_weighted"][ok], ws[ok] * rel[ok], "n_signal_weighted", rtol=1e-6)
    significance = o.value(s["significance"], None, "significance")[ok].astype(float)
    exp = f(ws[ok] * rel[ok] + alpha * wb[ok], wb[ok], np.full(ok.sum(), alpha)).astype(float)
    good = exp**2 * 1e6 > 1e-6 * (wb[ok] + 1)
    o.close(significance[good], exp[good], "significance", rtol=1e-4 if "f4" not in case["types"] else 0.05)
    if "f4" not in case["types"]:
        o.check(np.all(significance[rel[ok] > 1e-5] >= target * (1 - 1e-4)), "not significant")
    return [case["function"]] + (["custom limits"] if case["kwargs"] else []), True


@st.composite
def bkg_case(draw):
    n = gen.size(draw, 20, 80, 1500)
    e_axis = ev.axis(draw, "energy", gen.edges(draw, *gen.span(draw, *ev.ENERGY), 1, 5, log=True, many=60), log=True)
    f_min, f_max = draw(st.sampled_from([(0.0, 1.0), (0.5, 2.0), (1.0, 1.5), (0.0, 5.0), (2.0, 2.25)]))
    if gen.rare(draw, 4):
        f_min, f_max = sorted(gen.floats(draw, 2, 0, draw(st.sampled_from([0.5, 10, 90]))))
        assume(f_max - f_min > 0.01 * f_max)
    f_axis = ev.axis(draw, "angle", [f_min, f_max])
    k = gen.count(draw, 1, 6, 40)
    return dict(
        e=e_axis, f=f_axis, energy=ev.column(draw, e_axis, n), offset=ev.column(draw, f_axis, n, margin=0.4),
        f_unit2=gen.unit(draw, gen.ANG_UNITS),
        cut_edges=gen.edges(draw, e_axis["edges"][0] * 0.5, e_axis["edges"][-1] * 2, k, k, log=True), cut_unit=gen.unit(draw, gen.E_UNITS),
        same_bins=draw(st.booleans()), cuts=gen.floats(draw, 6, *gen.span(draw, (0.02, 0.5), (0.5, 30), (0.01, 0.05))), theta_unit=gen.unit(draw, gen.ANG_UNITS),
        weights=gen.weights(draw, n, 0, 3, [0.0, 1e4]) if draw(st.booleans()) else None,
        particle=gen.ints(draw, n, 0, 2) if draw(st.booleans()) else None,
        alpha=gen.pick(draw, [0.2, 1.0, 0.05, 3.0], 0.01, 10, log=True), bulk=ev.bulk(draw, n),
        lima=draw(st.booleans()),
    )


def background(case):
    for k in ("energy", "offset", "weights", "particle"):
        if case[k] is not None:
            case[k] = ev.expand(case[k], case["bulk"])
    n = len(case["energy"])
    e_data, e_edges = ev.native(case["e"], case["energy"])
    ev.native(case["f"], case["offset"])  # skip ambiguous
    e_bins = ev.bins(case["e"])
    t = QTable()
    t["reco_energy"] = ev.data(case["e"], case["energy"])
    t["reco_source_fov_offset"] = ev.data(case["f"], case["offset"])
    # columns which must not be used
    t["true_source_fov_offset"] = np.full(n, 0.0) * u.deg
    t["true_energy"] = np.full(n, 0.3) * u.TeV
    t["theta"] = np.full(n, 0.1) * u.deg
    w = np.ones(n)
    if case["weights"] is not None:
        w = np.array(case["weights"])
        t["weight"] = w
    if case["particle"] is not None:
        names = np.array(["proton", "electron", "nitrogen"])[np.array(case["particle"], int)] if n else np.array([], str)
        t["particle_type"] = names
    f_min, f_max = ev.bins(case["f"])
    lo, hi = case["f"]["edges"]
    if case["f"]["bins_unit"] != case["f"]["data_unit"]:
        f_max = f_max.to(case["f_unit2"])
        d = ev.data(case["f"], case["offset"])
        if gen.ambiguous(d.to_value(f_max.unit), [f_max.value]) or gen.ambiguous(d.to_value("deg"), [lo, hi]):
            raise Skip
    if case["same_bins"]:
        c_edges = e_bins
    else:
        c_edges = gen.q(case["cut_edges"], "TeV", case["cut_unit"])
    cuts = np.resize(case["cuts"], len(c_edges) - 1)
    theta = QTable()
    theta["low"] = c_edges[:-1]
    theta["high"] = c_edges[1:]
    theta["center"] = 0.5 * (c_edges[1:] + c_edges[:-1])
    theta["cut"] = gen.q(cuts, "deg", case["theta_unit"])
    before = t.copy()
    bg = estimate_background(t, e_bins, theta, case["alpha"], f_min, f_max)
    for k in before.colnames:
        o.same(np.asarray(t[k]), np.asarray(before[k]), f"column {k} of the events after the call")
    # reference
    d = ev.data(case["f"], case["offset"]).value
    edges = ev.bins(case["f"]).to_value(case["f"]["data_unit"])
    ring = (d >= edges[0]) & (d < edges[1])
    nb = len(e_edges) - 1
    o.check(len(bg) == nb, "number of rows")
    e_tev = np.array(case["e"]["edges"])
    center = 0.5 * (e_tev[1:] + e_tev[:-1])
    c_tev = np.array(case["cut_edges"] if not case["same_bins"] else case["e"]["edges"])
    x = 0.5 * (c_tev[1:] + c_tev[:-1])
    cut = np.empty(nb)
    for i, e in enumerate(center):
        if e <= x[0]:
            cut[i] = cuts[0]
        elif e >= x[-1]:
            cut[i] = cuts[-1]
        else:
            j = np.searchsorted(x, e, side="right") - 1
            cut[i] = cuts[j] + (cuts[j + 1] - cuts[j]) * (e - x[j]) / (x[j + 1] - x[j])
    ratio = o.cone(np.deg2rad(cut)) / (o.cone(np.deg2rad(hi)) - o.cone(np.deg2rad(lo)))
    scale = ratio / case["alpha"]
    counts = np.histogram  # noqa
    n_ring = o.hist_nd([e_data[ring]], [e_edges])
    w_ring = o.hist_nd([e_data[ring]], [e_edges], w[ring])
    for k, e in zip(("low", "high", "center"), (e_tev[:-1], e_tev[1:], center)):
        o.close(bg["reco_energy_" + k], e, k, unit="TeV")
    o.close(bg["n"], n_ring * scale, "n", rtol=1e-7)
    o.close(bg["n_weighted"], w_ring * scale, "n_weighted", rtol=1e-7, atol=1e-9 * np.abs(w).sum() * scale.max())
    if case["particle"] is not None and ring.any():
        for p in sorted(set(names[ring])):
            m = ring & (names == p)
            o.close(bg[f"n_{p}"], o.hist_nd([e_data[m]], [e_edges]) * scale, f"n_{p}", rtol=1e-7)
            o.close(bg[f"n_{p}_weighted"], o.hist_nd([e_data[m]], [e_edges], w[m]) * scale,
                    f"n_{p}_weighted", rtol=1e-7, atol=1e-9 * np.abs(w).sum() * scale.max())
    labels = []
    if (~ring).any():
        labels.append("events outside of the ring")
    if np.any((d == edges[0]) | (d == edges[1])):
        labels.append("events at the limits of the ring")
    if not case["same_bins"]:
        labels.append("different binning of theta cuts")
    if case["particle"] is not None:
        labels.append("particle types")
    if not n:
        labels.append("empty")
    return labels, n_ring.sum() > 0


SUBS = [
    Sub("sensitivity", sens_case(), sensitivity, 2400, 50000, shards=5),
    Sub("background", bkg_case(), background, 1600, 30000, shards=3),
]
