import operator

import numpy as np
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut
from pyirf.cuts import calculate_percentile_cut
from pyirf.sensitivity import relative_sensitivity

RULE = (
    "signal and background events with energy, score, theta, offset, multiplicity and optional"
    " weights (also with energy bins with few or no events), efficiencies in any order, score"
    " comparisons in both directions, theta cuts in other bins and units, limits of the background"
    " ring and sensitivity requirements; every cut combination is evaluated by brute force;"
    " non-trivial: two candidates of one bin with different finite sensitivity"
)


def efficiencies(draw, usual, n):
    """different efficiencies in any order"""
    values = [gen.pick(draw, usual, 0.05, 1) for _ in range(gen.count(draw, 1, n, 3 * n))]
    return list(dict.fromkeys(values))


@st.composite
def base(draw, two=True):
    n_sig = draw(st.sampled_from([0, 30, 60, 150, 300])) or draw(st.integers(5, 100))
    n_bkg = draw(st.sampled_from([0, 1, 20, 60, 200]))
    e_axis = ev.axis(draw, "energy", gen.edges(draw, *gen.span(draw, *ev.ENERGY), 1, 3, log=True), log=True)
    f_min, f_max = draw(st.sampled_from([(0.0, 1.0), (0.5, 2.0), (0.0, 3.0)]))
    if gen.rare(draw, 3):
        f_min = gen.pick(draw, [0.0, 0.25], 0, 2)
        f_max = f_min + gen.pick(draw, [0.1, 1.0], 0.05, 3)
    # scores between -5 and 5 or from 0 to 1
    score = draw(st.sampled_from([[0, 1], [0, 1], [0, 1], [-5, 5], [-1, 0]]))
    special = draw(st.sampled_from([[0.0, 1.0, 0.5], [0.0, 0.25, 0.5, 0.75, 1.0] * 10]))
    case = dict(
        e=e_axis, sig_e=ev.column(draw, e_axis, n_sig, margin=0.1), bkg_e=ev.column(draw, e_axis, n_bkg, margin=0.1),
        sig_gh=gen.floats(draw, n_sig, 0, 1, special, max_specials=len(special)),
        bkg_gh=gen.floats(draw, n_bkg, 0, 1, special, max_specials=len(special)), score=score,
        theta=gen.floats(draw, n_sig, 0, draw(st.sampled_from([0.5, 0.5, 0.5, 0.15, 0.03]))), theta_unit=gen.unit(draw, gen.ANG_UNITS),
        offset=gen.floats(draw, n_bkg, 0, 3.5), offset_unit=gen.unit(draw, gen.ANG_UNITS),
        f=[f_min, f_max], f_units=[gen.unit(draw, gen.ANG_UNITS), gen.unit(draw, gen.ANG_UNITS)],
        fov_default=draw(st.booleans()),
        sig_w=gen.weights(draw, n_sig, 0.1, 3) if draw(st.booleans()) else None,
        bkg_w=gen.weights(draw, n_bkg, 0.1, 30) if draw(st.booleans()) else None,
        alpha=None if gen.rare(draw, 3) else gen.pick(draw, [0.2, 0.5, 1.0], 0.05, 1.5, log=True),
        eff=efficiencies(draw, [0.5, 0.9, 0.25, 0.3, 1.0, 0.75, 0.7, 0.15, 0.62], 4),
        as_list=draw(st.booleans()), shift=draw(st.booleans()),
        kwargs={k: v for k, v, p in [
            ("min_significance", gen.pick(draw, [1.0, 5, 7.5], 0.5, 10), draw(st.booleans())),
            ("min_signal_events", gen.pick(draw, [0, 1, 25.0], 0, 50), draw(st.booleans())),
            ("min_excess_over_background", gen.pick(draw, [0.0, 0.5], 0, 1), draw(st.booleans())),
        ] if p},
    )
    return case


@st.composite
def gh_case(draw):
    case = draw(base())
    k = draw(st.integers(1, 4))
    case.update(
        op=draw(st.sampled_from(["ge", "ge", "le", "gt", "lt", "default"])),
        cut_edges=gen.edges(draw, 0.05, 20, k, k, log=True), cut_unit=gen.unit(draw, gen.E_UNITS),
        same_bins=draw(st.booleans()), cuts=gen.floats(draw, 4, 0.1, 0.5), cuts_unit=gen.unit(draw, gen.ANG_UNITS),
    )
    return case


@st.composite
def cuts_case(draw):
    case = draw(base())
    n_sig, n_bkg = len(case["sig_e"]), len(case["bkg_e"])
    case.update(
        sig_m=gen.ints(draw, n_sig, 1, 6), bkg_m=gen.ints(draw, n_bkg, 1, 6),
        multiplicity=draw(st.lists(st.sampled_from([2, 3, 4, 1]), min_size=1, max_size=2, unique=True)),
        # also large numbers of telescopes
        m_offset=draw(st.sampled_from([0, 0, 1, 4, 30, 300])),
        theta_eff=efficiencies(draw, [0.5, 0.75, 0.68, 0.9, 1.0, 0.3, 0.25], 3),
        theta_list=draw(st.booleans()),
        theta_limits=draw(st.sampled_from([None, [0.05, 0.2], [0.2, 0.4], [0.0, 1.0], "any"])),
    )
    for k in ("sig_m", "bkg_m", "multiplicity"):
        case[k] = [x + case["m_offset"] for x in case[k]]
    case["eff"] = case["eff"][:3]
    if case["theta_limits"] == "any":
        lo = gen.pick(draw, [0.0, 0.01], 0, 0.3)
        case["theta_limits"] = [lo, lo + gen.pick(draw, [0.1, 0.3], 0.01, 0.5)]
    return case


def tables(case):
    ns, nb = len(case["sig_e"]), len(case["bkg_e"])
    sig, bkg = QTable(), QTable()
    sig["reco_energy"] = ev.data(case["e"], case["sig_e"])
    bkg["reco_energy"] = ev.data(case["e"], case["bkg_e"])
    gh_s, gh_b = np.array(case["sig_gh"]), np.array(case["bkg_gh"])
    if case["shift"]:
        # signal like events are at larger scores
        gh_s = np.sqrt(gh_s)
        gh_b = gh_b**2
    if case.get("op") in ("le", "lt"):
        gh_s, gh_b = 1 - gh_s, 1 - gh_b
    a, b = case["score"]
    gh_s, gh_b = a + (b - a) * gh_s, a + (b - a) * gh_b
    sig["gh_score"], bkg["gh_score"] = gh_s, gh_b
    sig["theta"] = gen.q(case["theta"], "deg", case["theta_unit"])
    bkg["reco_source_fov_offset"] = gen.q(case["offset"], "deg", case["offset_unit"])
    # not to be used
    bkg["theta"] = np.full(nb, 0.01) * u.deg
    bkg["true_energy"] = np.full(nb, 0.3) * u.TeV
    sig["true_energy"] = np.full(ns, 0.3) * u.TeV
    sig["reco_source_fov_offset"] = np.full(ns, 50.0) * u.deg
    if case["sig_w"] is not None:
        sig["weight"] = np.array(case["sig_w"])
    if case["bkg_w"] is not None:
        bkg["weight"] = np.array(case["bkg_w"])
    if "sig_m" in case:
        sig["multiplicity"] = np.array(case["sig_m"], dtype=int)
        bkg["multiplicity"] = np.array(case["bkg_m"], dtype=int)
    kwargs = dict(case["kwargs"])
    lo, hi = (0.0, 1.0) if case["fov_default"] else case["f"]
    if not case["fov_default"]:
        kwargs["fov_offset_min"] = gen.q(lo, "deg", case["f_units"][0])
        kwargs["fov_offset_max"] = gen.q(hi, "deg", case["f_units"][1])
    if case["alpha"] is not None:
        kwargs["alpha"] = case["alpha"]
    return sig, bkg, kwargs, lo, hi


class Reference:
    """Expected histograms and sensitivity for given selections"""

    def __init__(self, case, sig, bkg, lo, hi):
        e_s, self.edges = ev.native(case["e"], case["sig_e"])
        e_b, _ = ev.native(case["e"], case["bkg_e"])
        self.bin_s = np.array([o.bin_of(x, self.edges) for x in e_s], int)
        self.bin_b = np.array([o.bin_of(x, self.edges) for x in e_b], int)
        self.n = len(self.edges) - 1
        offset = np.array(case["offset"])
        if gen.ambiguous(offset, [lo, hi]):
            raise Skip
        self.ring = (offset >= lo) & (offset < hi)
        self.area = o.cone(np.deg2rad(hi)) - o.cone(np.deg2rad(lo))
        self.alpha = 1.0 if case["alpha"] is None else case["alpha"]
        self.w_s = np.ones(len(sig)) if case["sig_w"] is None else np.array(case["sig_w"])
        self.w_b = np.ones(len(bkg)) if case["bkg_w"] is None else np.array(case["bkg_w"])
        self.kwargs = case["kwargs"]
        center = np.array(case["e"]["edges"])
        self.center = 0.5 * (center[1:] + center[:-1])

    def valid(self, index):
        return (index >= 0) & (index < self.n)

    def sensitivity(self, sel_s, sel_b, theta):
        """theta: cut at the center of the energy bins in deg"""
        scale = o.cone(np.deg2rad(theta)) / self.area / self.alpha
        out = []
        for i in range(self.n):
            s = sel_s & (self.bin_s == i)
            b = sel_b & (self.bin_b == i) & self.ring
            ws, wb = self.w_s[s].sum(), self.w_b[b].sum() * scale[i]
            rel = float(relative_sensitivity(ws + self.alpha * wb, wb, self.alpha, **self.kwargs)) if ws > 0 else np.inf
            out.append(dict(rel=rel, n=s.sum(), ws=ws, nb=b.sum() * scale[i], wb=wb))
        return out


    def uncertain(self, x, low, values, use, background):
        """Bins in which events are at the cut of an efficiency, but might be on either side of it
        because of rounding errors of the percentile. The ones of 0.5, 0.25, ... are exact."""
        out = np.zeros(self.n, bool)
        q = x if low else 1 - x
        for i in range(self.n):
            v = values[use & (self.bin_s == i)]
            if x * 1024 % 1 == 0 or len(v) < 10:
                continue
            a, b = np.quantile(v, [max(q - 1e-13, 0), min(q + 1e-13, 1)])
            at_cut = [y[(y >= a) & (y <= b)] for y in (v, background[self.bin_b == i])]
            out[i] = a != b and any(len(y) for y in at_cut)
        return out


def interpolate(x, xp, fp):
    return np.interp(x, xp, fp)


def compare(ref, best, candidates, tables, what):
    """candidates: per combination of cuts the cuts (per bin) and the expected numbers"""
    o.check(len(best) == ref.n, "number of rows of the sensitivity table")
    distinct = False
    for i in range(ref.n):
        if any(c["uncertain"][i] for c in candidates):
            continue
        rel = np.array([c["numbers"][i]["rel"] for c in candidates])
        finite = rel[np.isfinite(rel)]
        lowest = np.nanmin(rel) if not np.all(np.isnan(rel)) else np.nan
        distinct = distinct or len(set(np.round(finite, 9))) > 1
        got = float(best["relative_sensitivity"][i])
        o.close(got, lowest, f"best sensitivity in bin {i}", rtol=1e-6, atol=1e-11)
        # the cut tables and the row belong to one of the best combinations
        reasons = []
        for c in candidates:
            num = c["numbers"][i]
            if not (num["rel"] == lowest or abs(num["rel"] - lowest) <= 1e-6 * lowest or np.isnan(lowest)):
                continue
            try:
                for name, (table, columns) in tables.items():
                    for col, unit in columns.items():
                        o.close(table[col][i], c[name][col][i], f"{name} {col} of bin {i}",
                                unit=unit, rtol=1e-9, atol=1e-12)
                row = best[i]
                o.close(row["n_background"], num["nb"], "n_background", rtol=1e-6, atol=1e-12)
                o.close(row["n_background_weighted"], num["wb"], "n_background_weighted", rtol=1e-6, atol=1e-12)
                if np.isfinite(num["rel"]):
                    o.close(row["n_signal"], num["n"] * num["rel"], "n_signal", rtol=1e-5, atol=1e-9)
                    o.close(row["n_signal_weighted"], num["ws"] * num["rel"], "n_signal_weighted", rtol=1e-5, atol=1e-9)
                break
            except AssertionError as e:
                reasons.append(str(e))
        else:
            o.fail(f"{what}: result of bin {i} does not belong to the best cuts: {reasons}")
    return distinct


def check_bins(table, case, name):
    e = np.array(case["e"]["edges"])
    o.check(len(table) == len(e) - 1, f"number of rows of {name}")
    for k, x in zip(("low", "high", "center"), (e[:-1], e[1:], 0.5 * (e[1:] + e[:-1]))):
        o.close(table[k], x, f"{name} {k}", unit="TeV")


def snapshot(*tables):
    return [{k: np.array(u.Quantity(t[k]).value, copy=True) for k in t.colnames} for t in tables]


def unchanged(before, *tables):
    for b, t in zip(before, tables):
        o.check(list(b) == t.colnames, "columns of an input changed")
        for k in b:
            o.same(u.Quantity(t[k]).value, b[k], f"column {k} of the input after the call")


def optimize_gh(case):
    sig, bkg, kwargs, lo, hi = tables(case)
    ref = Reference(case, sig, bkg, lo, hi)
    e_bins = ev.bins(case["e"])
    c_edges = e_bins if case["same_bins"] else gen.q(case["cut_edges"], "TeV", case["cut_unit"])
    c_tev = np.array(case["e"]["edges"] if case["same_bins"] else case["cut_edges"])
    cuts = np.resize(case["cuts"], len(c_tev) - 1)
    theta_cuts = QTable()
    theta_cuts["low"], theta_cuts["high"] = c_edges[:-1], c_edges[1:]
    theta_cuts["center"] = 0.5 * (c_edges[1:] + c_edges[:-1])
    theta_cuts["cut"] = gen.q(cuts, "deg", case["cuts_unit"])
    if not case["same_bins"] and gen.ambiguous(case["sig_e"], c_tev):
        raise Skip
    if gen.ambiguous(case["theta"], cuts):
        raise Skip
    op = getattr(operator, case["op"] if case["op"] != "default" else "ge")
    if case["op"] != "default":
        kwargs["op"] = op
    eff = case["eff"] if case["as_list"] else np.array(case["eff"])
    before = snapshot(sig, bkg, theta_cuts)
    best, best_cut = optimize_gh_cut(sig, bkg, e_bins, eff, theta_cuts, progress=False, **kwargs)
    unchanged(before, sig, bkg, theta_cuts)
    check_bins(best_cut, case, "cut table")

    # theta cut in its own bins
    if case["same_bins"]:
        c_index = ref.bin_s
    else:
        c_index = np.array([o.bin_of(x, c_tev) for x in case["sig_e"]], int)
    in_theta = (c_index >= 0) & (c_index < len(cuts))
    theta = np.array(case["theta"])
    in_theta[in_theta] = theta[in_theta] <= cuts[c_index[in_theta]]
    theta_center = interpolate(ref.center, 0.5 * (c_tev[1:] + c_tev[:-1]), cuts)
    gh_s, gh_b = np.asarray(sig["gh_score"]), np.asarray(bkg["gh_score"])
    lower = op(1, 2)
    candidates = []
    for x in case["eff"]:
        table = calculate_percentile_cut(
            sig["gh_score"], sig["reco_energy"], e_bins, fill_value=gh_s.min() if lower else gh_s.max(),
            percentile=100 * x if lower else 100 * (1 - np.float64(x)),
        )
        cut = np.asarray(table["cut"])
        ok_s, ok_b = ref.valid(ref.bin_s), ref.valid(ref.bin_b)
        ok_s[ok_s] = op(gh_s[ok_s], cut[ref.bin_s[ok_s]])
        ok_b[ok_b] = op(gh_b[ok_b], cut[ref.bin_b[ok_b]])
        candidates.append(dict(
            gh=dict(cut=cut, efficiency=np.full(ref.n, x)),
            uncertain=ref.uncertain(x, lower, gh_s, np.ones(len(gh_s), bool), gh_b),
            numbers=ref.sensitivity(ok_s & in_theta, ok_b, theta_center),
        ))
    distinct = compare(ref, best, candidates, dict(gh=(best_cut, dict(cut=None, efficiency=None))), "optimize_gh_cut")
    labels = [case["op"]]
    if not case["same_bins"]:
        labels.append("theta cuts in different bins")
    return labels + label(case, ref), distinct


def label(case, ref):
    labels = []
    if case["sig_w"] or case["bkg_w"]:
        labels.append("weights")
    count = np.bincount(ref.bin_s[ref.valid(ref.bin_s)], minlength=ref.n)
    if (count < 10).any():
        labels.append("bin with less than 10 events")
    if case["kwargs"]:
        labels.append("custom requirements")
    return labels


def optimize_all(case):
    sig, bkg, kwargs, lo, hi = tables(case)
    ref = Reference(case, sig, bkg, lo, hi)
    e_bins = ev.bins(case["e"])
    t_min, t_max = 0.02, 0.3
    if case["theta_limits"] is not None:
        t_min, t_max = case["theta_limits"]
        kwargs["theta_min_value"] = gen.q(t_min, "deg", case["f_units"][0])
        kwargs["theta_max_value"] = gen.q(t_max, "deg", case["f_units"][1])
    eff = case["eff"] if case["as_list"] else np.array(case["eff"])
    theta_eff = case["theta_eff"] if case["theta_list"] else np.array(case["theta_eff"])
    before = snapshot(sig, bkg)
    best, best_mult, best_theta, best_gh = optimize_cuts(
        sig, bkg, e_bins, multiplicity_cuts=case["multiplicity"] if case["as_list"] else np.array(case["multiplicity"]),
        gh_cut_efficiencies=eff, theta_cut_efficiencies=theta_eff, progress=False, **kwargs)
    unchanged(before, sig, bkg)
    for t, name in ((best_mult, "multiplicity cuts"), (best_theta, "theta cuts"), (best_gh, "gh cuts")):
        check_bins(t, case, name)
    gh_s, gh_b = np.asarray(sig["gh_score"]), np.asarray(bkg["gh_score"])
    m_s, m_b = np.array(case["sig_m"], int), np.array(case["bkg_m"], int)
    theta = sig["theta"]
    ok_s, ok_b = ref.valid(ref.bin_s), ref.valid(ref.bin_b)
    candidates = []
    for m in case["multiplicity"]:
        use = m_s >= m
        for x in case["eff"]:
            gh_cut = np.asarray(calculate_percentile_cut(
                sig["gh_score"][use], sig["reco_energy"][use], e_bins, fill_value=gh_s.max(),
                percentile=100 * (1 - np.float64(x)))["cut"])
            sel_gh_s, sel_gh_b = ok_s.copy(), ok_b.copy()
            sel_gh_s[ok_s] = gh_s[ok_s] >= gh_cut[ref.bin_s[ok_s]]
            sel_gh_b[ok_b] = gh_b[ok_b] >= gh_cut[ref.bin_b[ok_b]]
            uncertain = ref.uncertain(x, False, gh_s, use, gh_b)
            for y in case["theta_eff"]:
                theta_cut = calculate_percentile_cut(
                    theta[use], sig["reco_energy"][use], e_bins, fill_value=t_max * u.deg, percentile=100 * y,
                    min_value=t_min * u.deg, max_value=t_max * u.deg)["cut"]
                # limits in other units
                cut = theta_cut.to_value(theta.unit)
                if gen.ambiguous(theta.to_value("deg"), [t_min, t_max]):
                    raise Skip
                sel_theta = ok_s.copy()
                sel_theta[ok_s] = theta.value[ok_s] <= cut[ref.bin_s[ok_s]]
                candidates.append(dict(
                    uncertain=uncertain | ref.uncertain(y, True, theta.value, use, np.full(len(gh_b), np.inf)),
                    gh=dict(cut=gh_cut, efficiency=np.full(ref.n, x)),
                    theta=dict(cut=theta_cut.to_value("deg"), efficiency=np.full(ref.n, y)),
                    multiplicity=dict(cut=np.full(ref.n, float(m))),
                    numbers=ref.sensitivity(use & sel_gh_s & sel_theta, (m_b >= m) & sel_gh_b, theta_cut.to_value("deg")),
                ))
    distinct = compare(ref, best, candidates, dict(
        gh=(best_gh, dict(cut=None, efficiency=None)), theta=(best_theta, dict(cut="deg", efficiency=None)),
        multiplicity=(best_mult, dict(cut=None)),
    ), "optimize_cuts")
    labels = ["1 combination" if len(candidates) == 1 else "several combinations"]
    return labels + label(case, ref), distinct


SUBS = [
    Sub("optimize_gh", gh_case(), optimize_gh, 1200, 8000, shards=8),
    Sub("optimize_cuts", cuts_case(), optimize_all, 900, 5000, shards=8),
]
