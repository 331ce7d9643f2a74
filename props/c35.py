import operator
import warnings

import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import gen, oracle as o, ops, sims
from harness.core import Sub
from pyirf.binning import create_histogram_table
from pyirf.cuts import calculate_percentile_cut, evaluate_binned_cut
from pyirf.io.gadf import create_aeff2d_hdu, create_background_2d_hdu
from pyirf.irf import (
    background_2d, effective_area_3d_lonlat, effective_area_3d_polar, effective_area_per_energy, effective_area_per_energy_and_fov,
    psf_table,
)
from pyirf.irf.energy_dispersion import energy_dispersion, energy_migration_matrix
from pyirf.sensitivity import calculate_sensitivity, estimate_background
from pyirf.spectral import (
    CRAB_HEGRA, CRAB_MAGIC_JHEAP2015, DAMPE_P_He_SPECTRUM, IRFDOC_ELECTRON_SPECTRUM, IRFDOC_PROTON_SPECTRUM, PDG_ALL_PARTICLE,
    PowerLaw, calculate_event_weights,
)
from pyirf.utils import cone_solid_angle

warnings.simplefilter("ignore")

RULE = (
    "random simulations and events; responses computed by different parts of the library are folded with each other and compared to"
    " the counts, rates and fluxes of the events; non-trivial: events in at least two bins of the folded axes"
)
ASSUMPTIONS = ["events are inside of the simulated range and of the bins which are summed over, none is within rounding of a bin edge"]


def gen_events(rng, c, n):
    """events of the simulation, energies log uniform"""
    t = QTable()
    t["true_energy"] = ops.log_uniform(rng, c["e_min"] * 1.0001, c["e_max"] * 0.9999, n) * u.TeV
    t["reco_energy"] = t["true_energy"] * rng.lognormal(0, 0.4, n)
    vmax = c["vmin"] + (c["width"] or 1)
    t["true_source_fov_offset"] = np.sqrt(rng.uniform((c["vmin"] + 1e-3) ** 2, (vmax - 1e-3) ** 2, n)) * u.deg
    t["true_source_fov_position_angle"] = rng.uniform(0, 360, n) * u.deg
    pa = t["true_source_fov_position_angle"]
    t["true_source_fov_lon"] = t["true_source_fov_offset"] * np.sin(pa)
    t["true_source_fov_lat"] = t["true_source_fov_offset"] * np.cos(pa)
    t["reco_source_fov_offset"] = t["true_source_fov_offset"] * rng.lognormal(0, 0.1, n)
    t["theta"] = rng.rayleigh(0.1, n) * u.deg
    t["weight"] = ops.weights(rng, n)
    return t


def cover(rng, lo, hi, n, log=False):
    """n bins which cover lo to hi"""
    if log:
        return np.exp(cover(rng, np.log(lo), np.log(hi), n))
    inner = lo + (hi - lo) * np.sort(rng.uniform(0.05, 0.95, n - 1))
    return np.concatenate([[lo], inner, [hi]])


@st.composite
def base_case(draw, diffuse=None):
    return dict(
        sim=draw(sims.sim_info(diffuse=diffuse)), n=draw(st.sampled_from([300, 40, 40, 6, 1, 0])), seed=draw(st.integers(0, 10**6)),
        ne=gen.count(draw, 1, 5, 25), nf=gen.count(draw, 1, 4, 12), nr=gen.count(draw, 1, 6, 25), np=gen.count(draw, 1, 4, 12),
        units=[gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.E_UNITS), gen.unit(draw, gen.ANG_UNITS)],
    )


def setup(case):
    c = case["sim"]
    info = sims.build(c)
    rng = np.random.default_rng(case["seed"])
    events = gen_events(rng, c, case["n"])
    us = case["units"]
    true = (cover(rng, c["e_min"], c["e_max"], case["ne"], log=True) * u.TeV).to(us[0])
    reco = (cover(rng, c["e_min"] * 1e-2, c["e_max"] * 1e2, case["nr"], log=True) * u.TeV).to(us[1])
    vmax = c["vmin"] + (c["width"] or 1)
    fov = (cover(rng, c["vmin"], vmax, case["nf"]) * u.deg).to(us[2])
    return c, info, rng, events, true, reco, fov


def counts(x, edges, w=None):
    return np.histogram(x.value, edges.to_value(x.unit), weights=w)[0]


def read_hdu(hdu, column):
    return QTable.read(hdu)[column][0].T


def folding(case):
    """effective area x migration matrix: spectrum of the selected events"""
    c, info, rng, events, true, reco, fov = setup(case)
    area = (np.pi * info.max_impact**2).to_value("m2")
    n_true = info.calculate_n_showers_per_energy(true)
    aeff = effective_area_per_energy(events, info, true).to_value("m2")
    one_bin = fov[[0, -1]]
    matrix = energy_migration_matrix(events, true, reco, one_bin)[..., 0]
    got = (aeff * n_true / area) @ matrix
    o.close(got, counts(events["reco_energy"], reco), "aeff x migration", rtol=1e-7, atol=1e-9 * case["n"])
    if c["width"]:
        # in every bin of the field of view, after export to a file
        a2 = effective_area_per_energy_and_fov(events, info, true, fov)
        hdu = create_aeff2d_hdu(a2, true, fov)
        a2 = read_hdu(hdu, "EFFAREA").to_value("m2")
        n2 = info.calculate_n_showers_per_energy_and_fov(true, fov)
        m2 = energy_migration_matrix(events, true, reco, fov)
        for k in range(case["nf"]):
            f = events["true_source_fov_offset"]
            sel = (f >= fov[k]) & (f < fov[k + 1])
            got = (a2[:, k] * n2[:, k] / area) @ m2[..., k]
            o.close(got, counts(events["reco_energy"][sel], reco), f"aeff x migration at offset {k}", rtol=1e-6, atol=1e-6 * case["n"])
        # migration integrates to one where the effective area is positive
        migra = np.array([0, 0.5, 0.8, 1, 1.5, 1e5])
        d = energy_dispersion(events, true, fov, migra)
        total = (d * np.diff(migra)[None, :, None]).sum(axis=1)
        o.close(total, (a2 > 0).astype(float), "integral of the energy dispersion where the effective area is positive", rtol=1e-7)
    return ["diffuse" if c["width"] else "point"], case["n"] > 1 and case["ne"] > 1 and case["nr"] > 1


def mean_area(case):
    """the mean of the effective area over the field of view is that of the whole viewcone"""
    c, info, rng, events, true, reco, fov = setup(case)
    area = np.pi * info.max_impact**2
    phi = cover(rng, 0, 360, case["np"]) * u.deg
    a1 = effective_area_per_energy(events, info, true)
    a2 = effective_area_per_energy_and_fov(events, info, true, fov)
    a3 = effective_area_3d_polar(events, info, true, fov, phi)
    n1 = info.calculate_n_showers_per_energy(true)
    n2 = info.calculate_n_showers_per_energy_and_fov(true, fov)
    n3 = info.calculate_n_showers_3d_polar(true, fov, phi)
    o.close((a2 * n2).sum(axis=1) / n1, a1.to_value("m2"), "mean over offsets", unit="m2", rtol=1e-7)
    o.close((a3 * n3).sum(axis=2) / n2, a2.to_value("m2"), "mean over position angles", unit="m2", rtol=1e-7)
    o.close((a3 * np.diff(phi)).sum(axis=2) / (360 * u.deg), a2.to_value("m2"), "mean over position angles (width)", unit="m2", rtol=1e-7)
    # in pixels around the whole viewcone
    vmax = c["vmin"] + c["width"]
    lon, lat = (cover(rng, -vmax * 1.01, vmax * 1.01, n) * u.deg for n in (case["nf"], case["np"]))
    a4 = effective_area_3d_lonlat(events, info, true, lon, lat, subpixels=10)
    n4 = info.calculate_n_showers_3d_lonlat(true, lon, lat, subpixels=10)
    o.check(a4.shape == (case["ne"], case["nf"], case["np"]), f"shape {a4.shape}")
    with np.errstate(all="ignore"):
        got = np.where(n4 > 0, (a4 * n4 / area).to_value(u.one), 0)
    expected, _ = np.histogramdd(
        [events["true_energy"].to_value("TeV"), events["true_source_fov_lon"].to_value("deg"), events["true_source_fov_lat"].to_value("deg")],
        [true.to_value("TeV"), lon.value, lat.value])
    o.close(got, np.where(n4 > 0, expected, 0), "selected events in pixels", rtol=1e-7)
    return [], case["n"] > 1 and case["nf"] > 1 and case["ne"] > 1


POINT = [CRAB_HEGRA, CRAB_MAGIC_JHEAP2015, PowerLaw(3e-9 / u.Unit("m2 s GeV"), -2.2, 50 * u.GeV)]
DIFFUSE = [IRFDOC_PROTON_SPECTRUM, IRFDOC_ELECTRON_SPECTRUM, PDG_ALL_PARTICLE, DAMPE_P_He_SPECTRUM]


@st.composite
def weight_case(draw):
    c = draw(base_case())
    c.update(spectrum=draw(st.integers(0, 3)), t=draw(st.sampled_from([1.0, 50.0, 0.01])), t_unit=gen.unit(draw, ["h", "s", "min"]),
             cone=draw(st.booleans()), thin=draw(st.lists(st.floats(0.02, 0.97), min_size=1, max_size=4)))
    return c


def weights(case):
    """in narrow bins: sum of weights = flux x effective area x time x width x solid angle"""
    c = case["sim"]
    info = sims.build(c)
    rng = np.random.default_rng(case["seed"])
    diffuse = c["width"] > 0
    spectra = DIFFUSE if diffuse else POINT
    spectrum = spectra[case["spectrum"] % len(spectra)]
    t = (case["t"] * u.h).to(case["t_unit"])
    eps = 1e-6
    simulated = PowerLaw.from_simulation(info, t)
    what = f"{spectrum}, {c}"
    for x in case["thin"]:
        e = c["e_min"] * (c["e_max"] / c["e_min"]) ** x
        bins = (np.array([e, e * (1 + eps)]) * u.TeV).to(case["units"][0])
        n = max(case["n"], 1)
        events = QTable(dict(true_energy=(e * (1 + eps * rng.uniform(0.1, 0.9, n)) * u.TeV).to(case["units"][1])))
        target, sim = spectrum, simulated
        omega = 1
        if diffuse:
            omega = cone_solid_angle(info.viewcone_max) - cone_solid_angle(info.viewcone_min)
            if case["cone"] and hasattr(spectrum, "integrate_cone"):
                target = spectrum.integrate_cone(info.viewcone_min, info.viewcone_max)
                sim = simulated.integrate_cone(info.viewcone_min, info.viewcone_max)
        events["weight"] = calculate_event_weights(events["true_energy"], target, sim)
        total = create_histogram_table(events, bins, "true_energy")["n_weighted"][0]
        aeff = effective_area_per_energy(events, info, bins)[0]
        flux = spectrum(bins[0])
        expected = (flux * omega * aeff * t * np.diff(bins)[0]).to_value(u.one)
        o.close(total, expected, f"sum of weights at {e} TeV, {what}", rtol=1e-4)
    return ["diffuse" if diffuse else "point", "cone" if case["cone"] else "flux"], True


def background(case):
    """the 2d background model integrated over the on region is the estimate for the sensitivity"""
    c, info, rng, events, true, reco, fov = setup(case)
    alpha = [1.0, 0.2, 0.5][case["np"] % 3]
    t = 13 * u.h
    cut = QTable(dict(low=reco[:-1], high=reco[1:], center=0.5 * (reco[:-1] + reco[1:]), cut=rng.uniform(0.05, 0.5, len(reco) - 1) * u.deg))
    rate = background_2d(events, reco, fov, t)
    rate = read_hdu(create_background_2d_hdu(rate, reco, fov), "BKG")
    width = np.diff(reco)
    for k in range(case["nf"]):
        b = estimate_background(events, reco, cut, alpha, fov[k], fov[k + 1])
        omega = cone_solid_angle(cut["cut"]) / alpha
        o.close((rate[:, k] * width * omega * t).to_value(u.one), np.array(b["n_weighted"]), f"background at offset {k}", rtol=1e-5)
    # the sum of all rings is one large ring
    omega = np.diff(cone_solid_angle(fov))
    b = estimate_background(events, reco, cut, alpha, fov[0], fov[-1])
    total = (rate * omega).sum(axis=1) / omega.sum()
    expected = (total * width * cone_solid_angle(cut["cut"]) / alpha * t).to_value(u.one)
    o.close(np.array(b["n_weighted"]), expected, "background in all rings", rtol=1e-5)
    # the same numbers are used for the sensitivity
    s = create_histogram_table(events[:0], reco)
    s["n_weighted"] = np.array(b["n_weighted"]) * 3
    s["n"] = np.array(b["n"]) * 3
    table = calculate_sensitivity(s, b, alpha=alpha)
    o.close(np.array(table["n_background_weighted"]), expected, "background in the sensitivity table", rtol=1e-5)
    return [], case["n"] > 1 and case["nr"] > 1 and case["nf"] > 1


def containment(case):
    """effective area after a theta cut = effective area x psf integrated up to the cut"""
    c, info, rng, events, true, reco, fov = setup(case)
    source = cover(rng, 0, 5, 8) * u.deg
    psf = psf_table(events, true, source, fov)
    integral = np.cumsum(psf * np.diff(cone_solid_angle(source)), axis=2)
    index = rng.integers(0, 8, case["ne"])
    cut = QTable(dict(low=true[:-1], high=true[1:], center=0.5 * (true[:-1] + true[1:]), cut=source[index + 1].to("arcmin")))
    passed = evaluate_binned_cut(events["theta"], events["true_energy"], cut, operator.le)
    before = effective_area_per_energy_and_fov(events, info, true, fov).to_value("m2")
    after = effective_area_per_energy_and_fov(events[passed], info, true, fov).to_value("m2")
    expected = np.array([before[i] * integral[i, :, k].to_value(u.one) for i, k in enumerate(index)])
    o.close(after, expected, "effective area after theta cut", rtol=1e-7)
    return [], case["n"] > 1 and case["ne"] > 1


def efficiency(case):
    """a cut at a percentile keeps this fraction of the events in every bin"""
    c, info, rng, events, true, reco, fov = setup(case)
    p = [10, 50, 68, 99.5, 100, 0][case["seed"] % 6]
    less = bool(case["seed"] // 6 % 2)
    if not less:
        p = 100 - p
    cut = calculate_percentile_cut(events["theta"], events["reco_energy"], reco, fill_value=90 * u.deg, percentile=p, min_events=1)
    passed = evaluate_binned_cut(events["theta"], events["reco_energy"], cut, operator.le if less else operator.ge)
    n = counts(events["reco_energy"], reco)
    k = counts(events["reco_energy"][passed], reco)
    keep = p / 100 if less else 1 - p / 100
    ok = np.abs(k - keep * n) <= 1 + 1e-6
    o.check(np.all(ok | (n == 0)), f"{k} of {n} events pass a cut with {keep:.1%} efficiency")
    return ["le" if less else "ge"], case["n"] > 5 and case["nr"] > 1


SUBS = [
    Sub("folding", base_case(), folding, 600, 12000, shards=2),
    Sub("mean area", base_case(diffuse=True), mean_area, 600, 12000, shards=2),
    Sub("weights", weight_case(), weights, 800, 16000, shards=2),
    Sub("background", base_case(diffuse=True), background, 500, 10000, shards=2),
    Sub("containment", base_case(diffuse=True), containment, 600, 12000, shards=2),
    Sub("efficiency", base_case(), efficiency, 800, 16000, shards=2),
]
