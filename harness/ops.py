"""Registry of operations of the library: inputs (plain objects, created from a seed) and the call.

Used for properties which every operation has: no change of the inputs or of any other state,
independence of what was called before, and of the representation of the inputs.
"""
import operator
from types import SimpleNamespace

import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

OPS = {}

#: units which are exchanged for each other
EQUIVALENT = [
    ["TeV", "GeV", "MeV", "erg"], ["deg", "rad", "arcmin", "arcsec"], ["m", "km", "cm"], ["s", "h", "min"],
    ["m2", "cm2", "km2"], ["sr-1", "deg-2", "arcmin-2"], ["TeV-1 s-1 sr-1", "GeV-1 s-1 sr-1", "MeV-1 min-1 deg-2"],
    ["TeV-1 cm-2 s-1", "GeV-1 m-2 s-1", "MeV-1 km-2 h-1"], ["TeV-1 cm-2 s-1 sr-1", "GeV-1 m-2 s-1 deg-2"],
]


def op(name, units=True, permute=("events",), rtol=1e-8, per_event=False, skip_units=(), deterministic=True, joint=()):
    """Register an operation, the decorated function returns inputs (dict) and the call with
    these as keywords. permute: names of inputs (tables) in which the order of rows does not matter,
    joint: arrays which are permuted together"""
    def add(func):
        OPS[name] = SimpleNamespace(
            name=name, make=func, units=units, permute=permute, rtol=rtol, per_event=per_event, skip_units=skip_units,
            deterministic=deterministic, joint=joint)
        return func
    return add


def log_uniform(rng, lo, hi, n):
    return 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)


def weights(rng, n):
    """any weights, or a few different ones with many ties (also of first and last event)"""
    if rng.random() < 0.6:
        return rng.uniform(0.1, 2, n)
    w = rng.choice(rng.uniform(0.1, 2, rng.integers(1, 4)), n)
    if n > 0 and rng.random() < 0.5:
        w[-1] = w[0]
    return w


def event_table(rng, n=None):
    n = rng.integers(30, 200) if n is None else n
    t = QTable()
    t["true_energy"] = log_uniform(rng, 0.02, 50, n) * u.TeV
    t["reco_energy"] = t["true_energy"] * rng.lognormal(0, 0.3, n)
    t["theta"] = rng.rayleigh(0.15, n) * u.deg
    t["true_source_fov_offset"] = rng.uniform(0, 5, n) * u.deg
    t["reco_source_fov_offset"] = t["true_source_fov_offset"] * rng.lognormal(0, 0.1, n)
    t["true_source_fov_position_angle"] = rng.uniform(0, 360, n) * u.deg
    for k in ("true", "reco"):
        t[k + "_source_fov_lon"] = rng.uniform(-5, 5, n) * u.deg
        t[k + "_source_fov_lat"] = rng.uniform(-5, 5, n) * u.deg
        t[k + "_az"], t[k + "_alt"] = rng.uniform(0, 360, n) * u.deg, rng.uniform(50, 85, n) * u.deg
    t["pointing_az"], t["pointing_alt"] = rng.uniform(0, 360, n) * u.deg, rng.uniform(50, 85, n) * u.deg
    t["gh_score"] = rng.uniform(0, 1, n)
    t["multiplicity"] = rng.integers(2, 6, n)
    t["weight"] = weights(rng, n)
    t["particle_type"] = rng.choice(["gamma", "electron"], n)
    t["obs_id"] = np.arange(n)
    return t


def only(t, *names):
    """some of the columns, and a few other ones"""
    return t[list(names)]


def energy_bins(rng, n=None, lo=0.03, hi=30):
    n = rng.integers(2, 6) if n is None else n
    e = np.sort(log_uniform(rng, lo, hi, n + 1))
    return e * np.arange(1, n + 2) / np.mean(np.arange(1, n + 2)) * u.TeV


def increasing(rng, lo, hi, n=None):
    n = rng.integers(1, 5) if n is None else n
    w = np.append(0, np.cumsum(rng.uniform(0.2, 1, n)))
    return lo + (hi - lo) * w / w[-1]


def sim_info(rng):
    from pyirf.simulations import SimulatedEventsInfo
    return SimulatedEventsInfo(
        n_showers=int(rng.integers(1000, 10**9)), energy_min=0.01 * u.TeV, energy_max=rng.uniform(40, 100) * u.TeV,
        max_impact=rng.uniform(100, 2000) * u.m, spectral_index=float(-rng.uniform(1.2, 3)),
        viewcone_min=rng.choice([0, 0.5]) * u.deg, viewcone_max=rng.uniform(4, 10) * u.deg)


# ---------------------------------------------------------------- binning

@op("bin indices", permute=(), joint=("data",), per_event=True)
def _(rng):
    from pyirf.binning import calculate_bin_indices
    return dict(data=log_uniform(rng, 0.01, 100, 40) * u.TeV, bins=energy_bins(rng)), \
        lambda data, bins: dict(zip(("index", "valid"), calculate_bin_indices(data, bins)))


@op("edges")
def _(rng):
    from pyirf.binning import add_overflow_bins, bin_center, join_bin_lo_hi, split_bin_lo_hi

    def call(bins):
        lo, hi = split_bin_lo_hi(bins)
        return dict(lo=lo, hi=hi, joined=join_bin_lo_hi(lo, hi), center=bin_center(bins), over=add_overflow_bins(bins)[1:-1])
    return dict(bins=energy_bins(rng)), call


@op("bins per decade")
def _(rng):
    from pyirf.binning import create_bins_per_decade
    lo = log_uniform(rng, 0.01, 1, 1)[0]
    n = int(rng.integers(1, 10))
    return dict(lo=lo * u.TeV, hi=lo * rng.uniform(2, 1000) * u.TeV), lambda lo, hi: create_bins_per_decade(lo, hi, n)


@op("histogram table")
def _(rng):
    from pyirf.binning import create_histogram_table
    key = rng.choice(["true_energy", "reco_energy"])
    return dict(events=only(event_table(rng), key, "weight", "particle_type"), bins=energy_bins(rng)), \
        lambda events, bins: create_histogram_table(events, bins, key=key)


@op("resample histogram")
def _(rng):
    from pyirf.binning import resample_histogram1d
    n = int(rng.integers(2, 6))
    return dict(hist=rng.uniform(0, 5, (3, n, 2)), old=energy_bins(rng, n), new=energy_bins(rng)), \
        lambda hist, old, new: resample_histogram1d(hist, old, new, axis=1)


# ---------------------------------------------------------------- cuts

@op("percentile cut", permute=(), joint=("values", "energy"))
def _(rng):
    from pyirf.cuts import calculate_percentile_cut
    t = event_table(rng)
    kw = dict(percentile=68 if rng.random() < 0.5 else [10, 95, 50.0], min_events=int(rng.integers(0, 15)))
    if rng.random() < 0.5:
        kw["smoothing"] = 1.0
    return dict(values=t["theta"], energy=t["reco_energy"], bins=energy_bins(rng), fill=0.31 * u.deg, lo=0.03 * u.deg, hi=0.29 * u.deg), \
        lambda values, energy, bins, fill, lo, hi: calculate_percentile_cut(
            values, energy, bins, fill_value=fill, min_value=lo, max_value=hi, **kw)


def cut_table(rng, lo=0.05, hi=0.4):
    t = QTable()
    e = energy_bins(rng)
    t["low"], t["high"] = e[:-1], e[1:]
    t["center"] = (e[1:] + e[:-1]) / 2
    t["cut"] = rng.uniform(lo, hi, len(t)) * u.deg
    return t


@op("evaluate cut", permute=(), joint=("values", "energy"), per_event=True)
def _(rng):
    from pyirf.cuts import evaluate_binned_cut
    t = event_table(rng)
    how = [operator.le, operator.ge, operator.lt, operator.gt][rng.integers(4)]
    return dict(values=t["theta"], energy=t["reco_energy"], cut=cut_table(rng)), \
        lambda values, energy, cut: evaluate_binned_cut(values, energy, cut, how)


@op("evaluate cut by index", permute=(), joint=("values", "index", "valid"), per_event=True)
def _(rng):
    from pyirf.cuts import evaluate_binned_cut_by_index
    cut = cut_table(rng)
    n = 50
    index = rng.integers(0, len(cut), n)
    return dict(values=rng.uniform(0, 0.5, n) * u.deg, index=index, valid=rng.random(n) < 0.8, cut=cut), \
        lambda values, index, valid, cut: evaluate_binned_cut_by_index(values, index, valid, cut, operator.le)


@op("compare cuts", units=False, permute=())
def _(rng):
    from pyirf.cuts import compare_irf_cuts
    cut = cut_table(rng)
    other = cut.copy()
    if rng.random() < 0.5:
        other["cut"][0] = 0.7 * u.deg
    return dict(a=cut, b=other), lambda a, b: np.array(compare_irf_cuts([a, b, a]))


# ---------------------------------------------------------------- spectra and simulations

@op("spectra", joint=("energy",), permute=(), per_event=True)
def _(rng):
    import pyirf.spectral as s
    x = rng.uniform(1.5, 3)

    def call(energy, norm, e_ref):
        norm2 = norm * (1e-3 / u.cm / u.cm) / (1 / u.cm / u.cm)
        return dict(
            pl=s.PowerLaw(norm, -x, e_ref)(energy), lp=s.LogParabola(norm, -x, -0.1, e_ref)(energy),
            gauss=s.PowerLawWithExponentialGaussian(norm2, -x, e_ref, 0.3, np.log10(5), 0.4)(energy),
            crab=s.CRAB_HEGRA(energy), magic=s.CRAB_MAGIC_JHEAP2015(energy), proton=s.IRFDOC_PROTON_SPECTRUM(energy),
            electron=s.IRFDOC_ELECTRON_SPECTRUM(energy), pdg=s.PDG_ALL_PARTICLE(energy), dampe=s.DAMPE_P_He_SPECTRUM(energy))
    return dict(energy=log_uniform(rng, 0.05, 20, 30) * u.TeV, norm=rng.uniform(1, 5) * 1e-11 / u.Unit("TeV cm2 s"),
                e_ref=rng.uniform(0.5, 2) * u.TeV), call


@op("table spectrum", joint=("energy",), permute=(), per_event=True)
def _(rng):
    from pyirf.spectral import TableInterpolationSpectrum
    e = np.sort(log_uniform(rng, 0.05, 50, 6)) * u.TeV
    log = bool(rng.random() < 0.5)
    return dict(energy=log_uniform(rng, 0.05, 20, 30) * u.TeV, e=e, flux=e.value**-2.5 / u.Unit("TeV cm2 s sr")), \
        lambda energy, e, flux: TableInterpolationSpectrum(e, flux, log_energy=log, log_flux=log)(energy)


@op("event weights", joint=("energy",), permute=(), per_event=True)
def _(rng):
    from pyirf.spectral import CRAB_HEGRA, PowerLaw, calculate_event_weights
    sim = sim_info(rng)
    sim.viewcone_min = sim.viewcone_max = 0 * u.deg

    def call(sim, energy, t):
        return calculate_event_weights(energy, CRAB_HEGRA, PowerLaw.from_simulation(sim, t))
    return dict(sim=sim, energy=log_uniform(rng, 0.05, 20, 30) * u.TeV, t=rng.uniform(1, 100) * u.h), call


@op("integrated spectrum", joint=("energy",), permute=(), per_event=True)
def _(rng):
    from pyirf.spectral import IRFDOC_ELECTRON_SPECTRUM, IRFDOC_PROTON_SPECTRUM, PowerLaw, calculate_event_weights
    sim = sim_info(rng)

    def call(sim, energy, t, lo, hi):
        flux = IRFDOC_PROTON_SPECTRUM.integrate_cone(lo, hi)
        return dict(proton=flux(energy), electron=IRFDOC_ELECTRON_SPECTRUM.integrate_cone(lo, hi)(energy),
                    weight=calculate_event_weights(energy, IRFDOC_PROTON_SPECTRUM, PowerLaw.from_simulation(sim, t)))
    return dict(sim=sim, energy=log_uniform(rng, 0.05, 20, 30) * u.TeV, t=rng.uniform(1, 100) * u.h, lo=0.1 * u.deg,
                hi=rng.uniform(0.2, 5) * u.deg), call


@op("number of showers", rtol=1e-7)
def _(rng):
    sim = sim_info(rng)
    lat = np.array([-1, 1]) * rng.uniform(2, 8)

    def call(sim, energy, fov, phi, lon, lat):
        return dict(
            e=sim.calculate_n_showers_per_energy(energy), f=sim.calculate_n_showers_per_fov(fov),
            ef=sim.calculate_n_showers_per_energy_and_fov(energy, fov),
            polar=sim.calculate_n_showers_3d_polar(energy, fov, phi),
            # pixels are inside or outside of the viewcone, which may change by rounding
            lonlat=np.round(sim.calculate_n_showers_3d_lonlat(energy, lon, lat, subpixels=5) / sim.n_showers, 2))
    return dict(sim=sim, energy=energy_bins(rng), fov=increasing(rng, 0, 6) * u.deg, phi=increasing(rng, 0, 360) * u.deg,
                lon=increasing(rng, -6, 7, 2) * u.deg, lat=lat * u.deg), call


# ---------------------------------------------------------------- response functions

@op("effective area")
def _(rng):
    from pyirf.irf import effective_area, effective_area_per_energy
    sim = sim_info(rng)

    def call(sim, events, energy, area):
        n = np.array([1.0, 2.5, 0])
        return dict(a=effective_area(n, np.array([10, 20.0, 7]), area), e=effective_area_per_energy(events, sim, energy))
    return dict(sim=sim, events=only(event_table(rng), "true_energy", "weight"), energy=energy_bins(rng), area=rng.uniform(1e4, 1e6) * u.m**2), call


@op("effective area in the field of view")
def _(rng):
    from pyirf.irf import effective_area as m
    from pyirf.irf.effective_area import effective_area_3d_lonlat, effective_area_3d_polar, effective_area_per_energy_and_fov
    del m
    sim = sim_info(rng)
    sim.viewcone_min, sim.viewcone_max = 0 * u.deg, 20 * u.deg

    def call(sim, events, energy, fov, phi, lon, lat):
        return dict(
            fov=effective_area_per_energy_and_fov(events, sim, energy, fov),
            polar=effective_area_3d_polar(events, sim, energy, fov, phi),
            lonlat=effective_area_3d_lonlat(events, sim, energy, lon, lat, subpixels=4))
    return dict(
        sim=sim, events=only(event_table(rng), "true_energy", "true_source_fov_offset", "true_source_fov_position_angle",
                    "true_source_fov_lon", "true_source_fov_lat", "weight"),
        energy=energy_bins(rng), fov=increasing(rng, 0, 6) * u.deg, phi=increasing(rng, 0, 360) * u.deg,
        lon=increasing(rng, -5, 5) * u.deg, lat=increasing(rng, -5, 5) * u.deg), call


@op("energy dispersion")
def _(rng):
    from pyirf.irf import energy_dispersion
    from pyirf.irf.energy_dispersion import energy_migration_matrix

    def call(events, energy, fov, migra, reco):
        return dict(d=energy_dispersion(events, energy, fov, migra), m=energy_migration_matrix(events, energy, reco, fov))
    return dict(events=only(event_table(rng), "true_energy", "reco_energy", "true_source_fov_offset", "gh_score"),
                energy=energy_bins(rng), fov=increasing(rng, 0, 6) * u.deg, migra=increasing(rng, 0.1, 4, 10), reco=energy_bins(rng)), call


@op("dispersion to migration")
def _(rng):
    from pyirf.irf.energy_dispersion import energy_dispersion_to_migration
    e = energy_bins(rng, 4)
    migra = increasing(rng, 0.2, 5, 8)
    d = rng.uniform(0, 1, (4, 8, 2))
    d = d / (d * np.diff(migra)[None, :, None]).sum(axis=1, keepdims=True)
    return dict(d=d, e=e, migra=migra, new=energy_bins(rng, 3), reco=energy_bins(rng, 5)), \
        lambda d, e, migra, new, reco: energy_dispersion_to_migration(d, e, migra, new, reco)


@op("psf")
def _(rng):
    from pyirf.irf import psf_table
    return dict(events=only(event_table(rng), "true_energy", "theta", "true_source_fov_offset"), energy=energy_bins(rng),
                source=increasing(rng, 0, 0.5, 7) * u.deg, fov=increasing(rng, 0, 6) * u.deg), \
        lambda events, energy, source, fov: psf_table(events, energy, source, fov)


@op("background")
def _(rng):
    from pyirf.irf import background_2d
    from pyirf.irf.background import background_3d_lonlat

    def call(events, energy, fov, lon, lat, t):
        return dict(b2=background_2d(events, energy, fov, t), b3=background_3d_lonlat(events, energy, lon, lat, t))
    return dict(
        events=only(event_table(rng), "reco_energy", "reco_source_fov_offset", "reco_source_fov_lon", "reco_source_fov_lat", "weight"),
        energy=energy_bins(rng), fov=increasing(rng, 0, 6) * u.deg, lon=increasing(rng, -5, 5) * u.deg,
        lat=increasing(rng, -4, 5) * u.deg, t=rng.uniform(0.5, 50) * u.h), call


# ---------------------------------------------------------------- sensitivity and cut optimisation

@op("significance", permute=(), joint=("n_on", "n_off"), per_event=True)
def _(rng):
    from pyirf.statistics import li_ma_significance
    n = 20
    return dict(n_on=rng.integers(0, 100, n).astype(float), n_off=rng.integers(0, 300, n).astype(float)), \
        lambda n_on, n_off: li_ma_significance(n_on, n_off, alpha=0.3)


@op("relative sensitivity", permute=(), joint=("n_on", "n_off"), per_event=True, rtol=1e-6)
def _(rng):
    from pyirf.sensitivity import relative_sensitivity
    n = 6
    off = rng.uniform(0, 300, n)
    return dict(n_on=0.2 * off + rng.uniform(0, 100, n), n_off=off), \
        lambda n_on, n_off: relative_sensitivity(n_on, n_off, alpha=0.2)


@op("sensitivity", permute=("signal", "background"), rtol=1e-6)
def _(rng):
    from pyirf.binning import create_histogram_table
    from pyirf.sensitivity import calculate_sensitivity, estimate_background

    def call(signal, background, bins, cut, lo, hi):
        b = estimate_background(background, bins, cut, alpha=0.5, fov_offset_min=lo, fov_offset_max=hi)
        s = create_histogram_table(signal, bins)
        return dict(bkg=b, s=calculate_sensitivity(s, b, alpha=0.5))
    cut = cut_table(rng)
    return dict(signal=only(event_table(rng), "reco_energy", "weight"),
                background=only(event_table(rng), "reco_energy", "reco_source_fov_offset", "weight"),
                bins=energy_bins(rng), cut=cut, lo=0.3 * u.deg, hi=3.1 * u.deg), call


@op("optimize gh cut", permute=("signal", "background"), rtol=1e-6)
def _(rng):
    from pyirf.cut_optimization import optimize_gh_cut

    def call(signal, background, bins, cut, lo, hi, eff):
        s, c = optimize_gh_cut(signal, background, bins, eff, cut, fov_offset_min=lo, fov_offset_max=hi, alpha=0.5, progress=False)
        return dict(s=s, c=c)
    return dict(signal=only(event_table(rng, 150), "reco_energy", "weight", "gh_score", "theta"),
                background=only(event_table(rng, 100), "reco_energy", "weight", "gh_score", "reco_source_fov_offset"),
                bins=energy_bins(rng, 2), cut=cut_table(rng), lo=0.3 * u.deg, hi=3.1 * u.deg, eff=np.array([0.4, 0.8])), call


# theta cuts are values of the events, rounding decides if these pass after a conversion
@op("optimize cuts", permute=("signal", "background"), rtol=1e-6, skip_units=("signal", "theta_min", "theta_max"))
def _(rng):
    from pyirf.cut_optimization import optimize_cuts

    def call(signal, background, bins, lo, hi, gh, th, mult, theta_min, theta_max):
        out = optimize_cuts(signal, background, bins, mult, gh, th, fov_offset_min=lo, fov_offset_max=hi, alpha=0.5,
                            theta_min_value=theta_min, theta_max_value=theta_max, progress=False)
        return dict(zip("smtg", out))
    return dict(signal=only(event_table(rng, 150), "reco_energy", "weight", "gh_score", "theta", "multiplicity"),
                background=only(event_table(rng, 100), "reco_energy", "weight", "gh_score", "reco_source_fov_offset", "multiplicity"),
                bins=energy_bins(rng, 2), lo=0.3 * u.deg, hi=3.1 * u.deg, gh=np.array([0.4, 0.8]), th=np.array([0.6, 0.81]),
                mult=np.array([2, 4]), theta_min=0.021 * u.deg, theta_max=0.29 * u.deg), call


# ---------------------------------------------------------------- benchmarks

@op("benchmarks")
def _(rng):
    from pyirf.benchmarks import angular_resolution, energy_bias_resolution
    from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68
    kind = rng.choice(["true", "reco"])
    q = [0.3, 0.68] if rng.random() < 0.5 else 0.68

    def call(events, bins):
        return dict(a=angular_resolution(events, bins, energy_type=kind, quantile=q), e=energy_bias_resolution(events, bins, energy_type=kind),
                    f=energy_bias_resolution(events, bins, energy_type=kind, bias_function=np.mean,
                                             resolution_function=energy_resolution_absolute_68))
    return dict(events=only(event_table(rng), "true_energy", "reco_energy", "theta"), bins=energy_bins(rng)), call


@op("bias from dispersion", rtol=1e-6)
def _(rng):
    from pyirf.benchmarks import energy_bias_resolution_from_energy_dispersion
    migra = increasing(rng, 0.2, 4, 12)
    d = rng.uniform(0.1, 1, (3, 12, 2))
    d = d / (d * np.diff(migra)[None, :, None]).sum(axis=1, keepdims=True)
    return dict(d=d, migra=migra), lambda d, migra: dict(zip(("bias", "res"), energy_bias_resolution_from_energy_dispersion(d, migra)))


# ---------------------------------------------------------------- coordinates

@op("coordinates", per_event=True)
def _(rng):
    from pyirf.utils import (calculate_source_fov_lonlat, calculate_source_fov_offset, calculate_source_fov_position_angle,
                             calculate_theta)
    prefix = rng.choice(["true", "reco"])

    def call(events, az, alt):
        lon, lat = calculate_source_fov_lonlat(events, prefix=prefix)
        return dict(theta=calculate_theta(events, az, alt), offset=calculate_source_fov_offset(events, prefix=prefix),
                    angle=calculate_source_fov_position_angle(events, prefix=prefix), lon=lon, lat=lat)
    return dict(events=only(event_table(rng), "true_az", "true_alt", "reco_az", "reco_alt", "pointing_az", "pointing_alt"),
                az=rng.uniform(0, 360) * u.deg, alt=rng.uniform(30, 80) * u.deg), call


@op("solid angles")
def _(rng):
    from pyirf.utils import cone_solid_angle, rectangle_solid_angle
    return dict(angle=increasing(rng, 1, 80) * u.deg, lon=increasing(rng, 0, 20, 2) * u.deg, lat=increasing(rng, -10, 60, 2) * u.deg), \
        lambda angle, lon, lat: dict(c=cone_solid_angle(angle), r=rectangle_solid_angle(lon[0], lon[1], lat[0], lat[1]))


# ---------------------------------------------------------------- files

def hdu_table(hdu):
    return QTable.read(hdu)


@op("gadf files", rtol=1e-8)
def _(rng):
    from pyirf.io import gadf
    a = rng.uniform(0, 1e5, (3, 2)) * u.m**2
    kw = dict(TELESCOP="x", extname="EXT")

    def call(a, e, fov, p, source, d, migra, b, lon, lat, r):
        return dict(
            aeff=gadf.create_aeff2d_hdu(a, e, fov, **kw), psf=gadf.create_psf_table_hdu(p, e, source, fov, **kw),
            edisp=gadf.create_energy_dispersion_hdu(d, e, migra, fov, **kw), b2=gadf.create_background_2d_hdu(b[..., 0], e, fov, **kw),
            b3=gadf.create_background_3d_hdu(b, e, lon, lat, **kw), r=gadf.create_rad_max_hdu(r, e, fov, **kw))
    return dict(
        a=a, e=energy_bins(rng, 3), fov=increasing(rng, 0, 5, 2) * u.deg, p=rng.uniform(0, 9, (3, 2, 4)) / u.sr,
        source=increasing(rng, 0, 1, 4) * u.deg, d=rng.uniform(0, 1, (3, 5, 2)), migra=increasing(rng, 0.2, 4, 5),
        b=rng.uniform(0, 9, (3, 2, 4)) * u.Unit("TeV-1 s-1 sr-1"), lon=increasing(rng, -2, 3, 2) * u.deg,
        lat=increasing(rng, -2, 3, 4) * u.deg, r=rng.uniform(0.1, 0.3, (3, 2)) * u.deg), call


@op("gammapy", rtol=1e-8)
def _(rng):
    from pyirf import gammapy as g

    def call(a, e, fov, p, source, d, migra):
        out = {}
        objects = dict(a=g.create_effective_area_table_2d(a, e, fov), p=g.create_psf_3d(p, e, source, fov),
                       d=g.create_energy_dispersion_2d(d, e, migra, fov))
        for k, x in objects.items():
            out[k] = x.quantity
            for ax in x.axes:
                out[k + ax.name] = ax.edges
        return out
    return dict(
        a=rng.uniform(0, 1e5, (3, 2)) * u.m**2, e=energy_bins(rng, 3), fov=increasing(rng, 0, 5, 2) * u.deg, p=rng.uniform(0, 9, (3, 2, 4)) / u.sr,
        source=increasing(rng, 0, 1, 4) * u.deg, d=rng.uniform(0, 1, (3, 5, 2)), migra=increasing(rng, 0.2, 4, 5)), call


# ---------------------------------------------------------------- interpolation

def random_grid(rng, dims=(1, 2)):
    dim = rng.choice(dims)
    if dim == 1:
        return rng.permutation(increasing(rng, 20, 70, 3)).reshape(-1, 1), rng.uniform(15, 80, (1, 1))
    pts = rng.uniform(0, 10, (6, 2))
    return pts, rng.uniform(-1, 11, (1, 2))


@op("effective area estimator", rtol=1e-6)
def _(rng):
    from pyirf.interpolation import (EffectiveAreaEstimator, ParametrizedNearestSimplexExtrapolator,
                                     ParametrizedVisibleEdgesExtrapolator)
    pts, target = random_grid(rng)
    extra = ParametrizedNearestSimplexExtrapolator if rng.random() < 0.5 else ParametrizedVisibleEdgesExtrapolator
    a = log_uniform(rng, 0.1, 1e3, len(pts) * 6).reshape(-1, 3, 2)
    return dict(pts=pts, a=a * u.m**2, target=target, a_min=1.3 * u.m**2), \
        lambda pts, a, target, a_min: EffectiveAreaEstimator(pts, a, extrapolator_cls=extra, min_effective_area=a_min)(target)


@op("rad max estimator", rtol=1e-6)
def _(rng):
    from pyirf.interpolation import ParametrizedNearestSimplexExtrapolator, RadMaxEstimator
    pts, target = random_grid(rng)
    r = rng.uniform(0.05, 0.3, (len(pts), 3, 2))
    r[rng.random(r.shape) < 0.2] = 0.35
    fill = [None, 0.35, "infer"][rng.integers(3)]
    return dict(pts=pts, r=r, target=target), lambda pts, r, target: RadMaxEstimator(
        pts, r, fill_value=fill, extrapolator_cls=ParametrizedNearestSimplexExtrapolator)(target)


def distributions(rng, n, edges, width, shape):
    mids = (edges[1:] + edges[:-1]) / 2
    mu = rng.uniform(0.4, 0.6, (n, *shape, 1)) * (edges[-1] - edges[0]) + edges[0]
    s = rng.uniform(0.1, 0.2, (n, *shape, 1)) * (edges[-1] - edges[0])
    p = np.exp(-0.5 * ((mids - mu) / s) ** 2) + 1e-3
    return p / (p * width).sum(axis=-1, keepdims=True)


@op("energy dispersion estimator", rtol=1e-5)
def _(rng):
    from pyirf.interpolation import (EnergyDispersionEstimator, MomentMorphInterpolator, MomentMorphNearestSimplexExtrapolator,
                                     QuantileInterpolator)
    pts, target = random_grid(rng)
    migra = increasing(rng, 0.2, 4, 12)
    d = np.swapaxes(distributions(rng, len(pts), migra, np.diff(migra), (2, 3)), -1, -2)
    cls = QuantileInterpolator if rng.random() < 0.5 else MomentMorphInterpolator
    return dict(pts=pts, migra=migra, d=d, target=target), lambda pts, migra, d, target: EnergyDispersionEstimator(
        pts, migra, d, interpolator_cls=cls, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)(target)


@op("psf estimator", rtol=1e-5)
def _(rng):
    from harness.oracle import cone
    from pyirf.interpolation import (DiscretePDFNearestNeighborSearcher, MomentMorphNearestSimplexExtrapolator, PSFTableEstimator,
                                     QuantileInterpolator, MomentMorphInterpolator)
    pts, target = random_grid(rng)
    source = increasing(rng, 0, 1, 10)
    p = distributions(rng, len(pts), source, np.diff(cone(np.deg2rad(source))), (2, 3))
    cls = [QuantileInterpolator, MomentMorphInterpolator, DiscretePDFNearestNeighborSearcher][rng.integers(3)]
    return dict(pts=pts, source=source * u.deg, p=p / u.sr, target=target), lambda pts, source, p, target: PSFTableEstimator(
        pts, source, p, interpolator_cls=cls, extrapolator_cls=MomentMorphNearestSimplexExtrapolator)(target)


# ---------------------------------------------------------------- comparison of inputs and results

def flatten(out, name=""):
    """[(name, array, unit, kind)] of any result"""
    from astropy.io.fits import BinTableHDU
    if isinstance(out, dict):
        return [x for k in out for x in flatten(out[k], f"{name}.{k}")]
    if isinstance(out, BinTableHDU):
        return flatten(hdu_table(out), name) + [(name + ".header", header(out), None)]
    if isinstance(out, (list, tuple)):
        return [x for k, v in enumerate(out) for x in flatten(v, f"{name}[{k}]")]
    if isinstance(out, Table):
        r = [(name + ".columns", np.array(out.colnames), None)]
        return r + [x for c in out.colnames for x in flatten(out[c], f"{name}.{c}")]
    if type(out).__module__.startswith("pyirf"):
        # simulation information, spectra
        names = getattr(type(out), "__slots__", None) or sorted(vars(out))
        return [x for k in names if not callable(getattr(out, k)) for x in flatten(getattr(out, k), f"{name}.{k}")]
    unit = getattr(out, "unit", None)
    return [(name, np.array(getattr(out, "value", out)), None if unit is None else u.Unit(unit))]


def header(hdu):
    skip = ("DATE", "COMMENT", "HISTORY", "")
    return np.array([f"{k}={v}" for k, v in hdu.header.items() if k not in skip])


def snapshot(obj):
    """copy of everything which could be changed"""
    out = []
    for name, a, unit in flatten(obj):
        out.append((name, a.copy(), str(a.dtype), None if unit is None else unit.to_string(), a.shape))
    for k, v in (obj.items() if isinstance(obj, dict) else []):
        if isinstance(v, Table):
            out.append((k + ".meta", np.array([str(dict(v.meta))]), "", None, ()))
    return out


def different(a, b):
    """first difference of two snapshots or None"""
    if [x[0] for x in a] != [x[0] for x in b]:
        return "names"
    for x, y in zip(a, b):
        if x[2:] != y[2:]:
            return f"{x[0]}: {x[2:]} was changed to {y[2:]}"
        same = x[1] == y[1]
        if x[1].dtype.kind == "f":
            same = same | (np.isnan(x[1]) & np.isnan(y[1]))
        if not np.all(same):
            return f"{x[0]}: values changed"
    return None
