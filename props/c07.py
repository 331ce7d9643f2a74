import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.table import QTable
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Skip, Sub
from pyirf import spectral
from pyirf.simulations import SimulatedEventsInfo
from pyirf.spectral import (
    LogParabola, PowerLaw, PowerLawWithExponentialGaussian, TableInterpolationSpectrum,
    calculate_event_weights,
)

RULE = (
    "random parameters, energies (scalar, arrays, many orders of magnitude) and units for every"
    " quantity, all spectral classes and published spectra, spectral indices including exactly -1,"
    " point-like and diffuse simulations; non-trivial: at least one of the units differs from the"
    " default or at least two energies"
)

COMMON = ["TeV", "GeV", "MeV", "erg"]


@st.composite
def spectrum_case(draw, kinds=("pl", "lp", "gauss"), diffuse=None):
    diffuse = draw(st.booleans()) if diffuse is None else diffuse
    return dict(
        kind=draw(st.sampled_from(list(kinds))),
        diffuse=diffuse,
        norm=gen.floats(draw, 1, *draw(st.sampled_from([(1e-13, 1e3), (1e-13, 1e3), (1e-45, 1e-13)])), log=True)[0],
        norm_unit=gen.unit(draw, gen.DIFFUSE_UNITS if diffuse else gen.FLUX_UNITS),
        e_ref=gen.pick(draw, [1.0, 1.0, 0.1, 0.5, 13.0], 0.01, 100, log=True),
        e_unit=gen.unit(draw, COMMON),
        default_ref=draw(st.booleans()),
        index=gen.pick(draw, [-2.0, -2.62, -1.0, -3.43, -1.5, 0.0], -5, 0),
        b=gen.pick(draw, [-0.24, 0.0, 0.3, -1.0], -1, 1),
        f=gen.pick(draw, [1.95, 0.0, 0.5], 0, 3),
        mu=gen.pick(draw, [-0.101, 0.0, 1.0], -2, 2),
        sigma=gen.pick(draw, [0.741, 0.2, 2.0], 0.05, 3),
    )


def make(c):
    norm = u.Quantity(c["norm"], c["norm_unit"])
    e_ref = gen.q(c["e_ref"], "TeV", c["e_unit"])
    if c["kind"] == "pl":
        if c["default_ref"]:
            return PowerLaw(norm, c["index"]), 1.0
        return PowerLaw(normalization=norm, index=c["index"], e_ref=e_ref), c["e_ref"]
    if c["kind"] == "lp":
        if c["default_ref"]:
            return LogParabola(norm, c["index"], c["b"]), 1.0
        return LogParabola(normalization=norm, a=c["index"], b=c["b"], e_ref=e_ref), c["e_ref"]
    return PowerLawWithExponentialGaussian(
        norm, c["index"], e_ref, f=c["f"], mu=c["mu"], sigma=c["sigma"]), c["e_ref"]


def formula(c, e, e_ref):
    """e, e_ref in TeV, flux in the unit of the normalization"""
    x = np.asarray(e) / e_ref
    if c["kind"] == "lp":
        return c["norm"] * x ** (c["index"] + c["b"] * np.log10(x))
    flux = c["norm"] * x ** c["index"]
    if c["kind"] == "gauss":
        g = np.exp(-((np.log10(x) - c["mu"]) ** 2) / (2 * c["sigma"] ** 2))
        flux = flux * (1 + c["f"] * (np.exp(g) - 1))
    return flux


@st.composite
def call_case(draw):
    return dict(
        s=draw(spectrum_case()),
        energy=gen.floats(draw, draw(st.integers(1, 10)), 1e-3, 1e3, [1.0, 0.1], log=True),
        unit=gen.unit(draw, COMMON), scalar=draw(st.booleans()),
    )


def call(case):
    c = case["s"]
    s, e_ref = make(c)
    e = case["energy"][0] if case["scalar"] else np.array(case["energy"])
    flux = s(gen.q(e, "TeV", case["unit"]))
    o.close(flux, formula(c, e, e_ref), "flux", rtol=1e-9, unit=c["norm_unit"])
    repr(s)
    # wrong physical types
    o.raises(u.UnitsError, s, 5 * u.m, what="energy with unit of length")
    o.raises(TypeError, s, 5.0, what="energy without unit")
    o.raises(u.UnitsError, type(s), 1 / u.m, what="normalization without energy",
             **{"pl": dict(index=-2), "lp": dict(a=-2, b=0),
                "gauss": dict(index=-2, e_ref=1 * u.TeV, f=1, mu=0, sigma=1)}[c["kind"]])
    if c["kind"] == "pl":
        o.raises(ValueError, PowerLaw, s.normalization, 0.5 - c["index"], what="rising power law")
    return [c["kind"], "diffuse" if c["diffuse"] else "point"], \
        len(case["energy"]) > 1 or case["unit"] != "TeV"


@st.composite
def cone_case(draw):
    return dict(
        s=draw(spectrum_case(kinds=("pl", "gauss"))),
        edges=draw(st.sampled_from([[], [0.0]])) + gen.edges(
            draw, *draw(st.sampled_from([(0.1, 20), (0.01, 1), (0.05, 0.9), (1, 180)])), 2, 4),
        unit=gen.unit(draw, gen.ANG_UNITS), unit2=gen.unit(draw, gen.ANG_UNITS),
        energy=gen.floats(draw, 4, 1e-2, 1e2, log=True),
    )


def cone(case):
    c = case["s"]
    s, e_ref = make(c)
    a = np.deg2rad(case["edges"])
    e = np.array(case["energy"])
    energy = e * u.TeV
    inner, outer = gen.q(case["edges"][0], "deg", case["unit"]), gen.q(case["edges"][-1], "deg", case["unit2"])
    if not c["diffuse"]:
        o.raises(ValueError, s.integrate_cone, inner, outer, what="cone for point source flux")
        return ["point"], False
    point_unit = u.Unit(c["norm_unit"]) * u.sr
    total = s.integrate_cone(inner, outer)
    o.check(type(total) is type(s), f"type is {type(total)}")
    exp = formula(c, e, e_ref) * (o.cone(a[-1]) - o.cone(a[0]))
    o.close(total(energy), exp, "flux in cone", rtol=1e-9, unit=point_unit)
    # additive for consecutive rings
    parts = 0
    for i in range(len(a) - 1):
        ring = s.integrate_cone(gen.q(case["edges"][i], "deg", case["unit"]),
                                gen.q(case["edges"][i + 1], "deg", case["unit2"]))
        o.close(ring(energy), formula(c, e, e_ref) * (o.cone(a[i + 1]) - o.cone(a[i])),
                "flux in ring", rtol=1e-7, unit=point_unit)
        parts = parts + ring(energy).to_value(point_unit)
    o.close(parts, exp, "sum of rings", rtol=1e-7, atol=0)
    # the original spectrum is not changed
    o.close(s(energy), formula(c, e, e_ref), "flux after call", rtol=1e-9, unit=c["norm_unit"])
    return ["diffuse", c["kind"]], True


@st.composite
def weights_case(draw):
    diffuse = draw(st.booleans())
    return dict(
        target=draw(spectrum_case(diffuse=diffuse)), sim=draw(spectrum_case(diffuse=diffuse)),
        energy=gen.floats(draw, gen.size(draw, 10, 50), 1e-2, 1e2, log=True),
        unit=gen.unit(draw, COMMON), lam=draw(st.booleans()), bulk=ev.tile(draw, 10),
    )


def weights(case):
    target, r1 = make(case["target"])
    sim, r2 = make(case["sim"])
    e = np.array(ev.expand(case["energy"], case["bulk"]))
    t = target
    if case["lam"]:
        def t(energy):
            return target(energy)
    w = calculate_event_weights(gen.q(e, "TeV", case["unit"]), t, sim)
    o.check(not hasattr(w, "unit"), "weights have a unit")
    f1 = u.Quantity(formula(case["target"], e, r1), case["target"]["norm_unit"])
    f2 = u.Quantity(formula(case["sim"], e, r2), case["sim"]["norm_unit"])
    unit = "TeV-1 m-2 s-1 sr-1" if case["target"]["diffuse"] else "TeV-1 m-2 s-1"
    o.close(w, f1.to_value(unit) / f2.to_value(unit), "weights", rtol=1e-9)
    one = calculate_event_weights(gen.q(e, "TeV", case["unit"]), sim, sim)
    o.close(one, np.ones(len(e)), "weights for the simulated spectrum", rtol=1e-12)
    return [case["target"]["kind"] + "/" + case["sim"]["kind"]], len(e) > 1


@st.composite
def sim_case(draw):
    e_min = gen.floats(draw, 1, 1e-3, 1, log=True)[0]
    vmin = gen.pick(draw, [0.0, 0.0, 1.0, 3.0], 0, 4)
    return dict(
        n=draw(st.sampled_from([1, 1000, 123456, 10**9, 5 * 10**10])),
        e_min=e_min, e_max=e_min * draw(st.sampled_from([1.5, 10.0, 1e3, 1e5])),
        index=gen.pick(draw, [-1.0, -1, -1.5, -2.0, -2, -2.7, -3.3, -1.02, -1.0002], -3.5, -1.001),
        impact=gen.pick(draw, [10.0, 500.0, 1900.0], 1, 3000),
        vmin=vmin, vmax=vmin + gen.pick(draw, [0.0, 0.0, 0.0, 0.1, 5.0, 10.0], 0.05, 20),
        obstime=gen.pick(draw, [0.1, 1.0, 50.0], 0.01, 100, log=True),
        units=[gen.unit(draw, COMMON), gen.unit(draw, COMMON), gen.unit(draw, gen.LEN_UNITS),
               gen.unit(draw, gen.ANG_UNITS), gen.unit(draw, gen.TIME_UNITS), gen.unit(draw, COMMON)],
        e_ref=draw(st.sampled_from([None, 1.0, 0.3, 10.0])),
        split=gen.fractions(draw, 3),
    )


def from_simulation(case):
    us = case["units"]
    info = SimulatedEventsInfo(
        n_showers=case["n"], energy_min=gen.q(case["e_min"], "TeV", us[0]),
        energy_max=gen.q(case["e_max"], "TeV", us[1]),
        max_impact=gen.q(case["impact"], "m", us[2]), spectral_index=case["index"],
        viewcone_min=gen.q(case["vmin"], "deg", us[3]), viewcone_max=gen.q(case["vmax"], "deg", us[3]),
    )
    kw = {} if case["e_ref"] is None else {"e_ref": gen.q(case["e_ref"], "TeV", us[5])}
    pl = PowerLaw.from_simulation(info, obstime=gen.q(case["obstime"], "h", us[4]), **kw)
    diffuse = case["vmax"] > case["vmin"]
    unit = "TeV-1 m-2 s-1 sr-1" if diffuse else "TeV-1 m-2 s-1"
    o.check(isinstance(pl, PowerLaw), f"type is {type(pl)}")
    # integrate the flux over energy (Gauss-Legendre in log(E))
    x, w = np.polynomial.legendre.leggauss(60)
    a, b = np.log(case["e_min"]), np.log(case["e_max"])
    le = 0.5 * (b - a) * x + 0.5 * (a + b)
    flux = o.value(pl(np.exp(le) * u.TeV), unit, "flux")
    integral = np.sum(w * flux * np.exp(le)) * 0.5 * (b - a)
    n = integral * np.pi * case["impact"] ** 2 * case["obstime"] * 3600
    if diffuse:
        n *= o.cone(np.deg2rad(case["vmax"])) - o.cone(np.deg2rad(case["vmin"]))
    o.close(n, case["n"], "number of showers from the integrated flux", rtol=1e-6)
    # and consistent with the number of showers in each energy bin
    e = [case["e_min"]] + sorted(
        case["e_min"] * (case["e_max"] / case["e_min"]) ** f for f in case["split"]) + [case["e_max"]]
    per_bin = info.calculate_n_showers_per_energy(np.array(e) * u.TeV)
    o.close(np.sum(per_bin), case["n"], "showers in all bins", rtol=1e-9)
    for i in range(len(e) - 1):
        a, b = np.log(e[i]), np.log(e[i + 1])
        le = 0.5 * (b - a) * x + 0.5 * (a + b)
        part = np.sum(w * o.value(pl(np.exp(le) * u.TeV), unit, "flux") * np.exp(le)) * 0.5 * (b - a)
        o.close(per_bin[i], case["n"] * part / integral, "showers in bin", rtol=1e-6, atol=1e-9 * case["n"])
    return ["diffuse" if diffuse else "point", f"index {case['index']}"], True


@st.composite
def table_case(draw):
    e = gen.edges(draw, 1e-2, 1e2, 1, 8, log=True, many=300)
    n = len(e)
    return dict(
        energy=e, flux=gen.floats(draw, n, *draw(st.sampled_from([(1e-12, 1e-2), (1e-12, 1e-2), (1e-40, 1e-14), (1, 1e8)])), log=True),
        order=list(draw(st.permutations(range(n)))),
        log_energy=draw(st.booleans()), log_flux=draw(st.booleans()),
        default=draw(st.booleans()),
        e_unit=gen.unit(draw, COMMON), call_unit=gen.unit(draw, COMMON),
        flux_unit=gen.unit(draw, gen.FLUX_UNITS + gen.DIFFUSE_UNITS),
        ref=draw(st.sampled_from([None, 1.0, 0.05, 20.0])), ref_unit=gen.unit(draw, COMMON),
        at=gen.floats(draw, gen.count(draw, 1, 8, 400), 3e-3, 3e2, e, log=True),
        via=draw(st.sampled_from(["init", "table", "file"])),
    )


def table_spectrum(case):
    order = case["order"]
    e = np.array(case["energy"])
    f = np.array(case["flux"])
    t = QTable()
    t["flux"] = u.Quantity(f[order], case["flux_unit"])
    t["energy"] = gen.q(e[order], "TeV", case["e_unit"])
    kw = {}
    log_e = log_f = True
    if not case["default"]:
        log_e, log_f = case["log_energy"], case["log_flux"]
        kw.update(log_energy=log_e, log_flux=log_f)
    if case["ref"] is not None:
        kw["reference_energy"] = gen.q(case["ref"], "TeV", case["ref_unit"])
    if case["via"] == "init":
        s = TableInterpolationSpectrum(t["energy"], t["flux"], **kw)
    elif case["via"] == "table":
        s = TableInterpolationSpectrum.from_table(t, **kw)
    else:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "spectrum.ecsv")
            t.write(path, format="ascii.ecsv")
            s = TableInterpolationSpectrum.from_file(path, **kw)

    x = np.log10(e) if log_e else e
    y = np.log10(f) if log_f else f

    def ref(v):
        v = np.log10(v) if log_e else v
        # extrapolation uses the first / last segment
        i = 0
        while i < len(x) - 2 and v > x[i + 1]:
            i += 1
        r = y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])
        return 10 ** r if log_f else r

    at = np.array(case["at"])
    exp = np.array([ref(v) for v in at])
    ok = np.isfinite(exp) & (np.abs(exp) < 1e100) & (np.abs(exp) > 1e-100)
    r = s(gen.q(at, "TeV", case["call_unit"]))
    o.close(u.Quantity(r)[ok], exp[ok], "interpolated flux", rtol=1e-7,
            atol=0 if log_f else 1e-9 * np.max(np.abs(f)) * max(1, np.max(np.abs(exp[ok]), initial=0) / np.max(f)),
            unit=case["flux_unit"])
    o.close(s(gen.q(e, "TeV", case["call_unit"])), f, "flux at the given points", rtol=1e-8,
            atol=1e-9 * np.max(f) if not log_f else 0, unit=case["flux_unit"])
    single = s(gen.q(at[0], "TeV", case["call_unit"]))
    if ok[0]:
        o.shape_is(single, (), "flux for a scalar energy")
        o.close(single, exp[0], "flux for a scalar energy", rtol=1e-7,
                atol=0 if log_f else 1e-9 * max(np.max(f), abs(exp[0])), unit=case["flux_unit"])
    return [f"log {log_e} {log_f}", case["via"]], True


PUBLISHED = {
    # name: (kind, norm, unit, index/a, e_ref in TeV, other)
    "CRAB_HEGRA": dict(kind="pl", norm=2.83e-11, norm_unit="TeV-1 cm-2 s-1", index=-2.62, e_ref=1.0),
    "CRAB_MAGIC_JHEAP2015": dict(kind="lp", norm=3.23e-11, norm_unit="TeV-1 cm-2 s-1", index=-2.47,
                                 b=-0.24, e_ref=1.0),
    "PDG_ALL_PARTICLE": dict(kind="pl", norm=1.8e4, norm_unit="GeV-1 m-2 s-1 sr-1", index=-2.7, e_ref=1e-3),
    "IRFDOC_PROTON_SPECTRUM": dict(kind="pl", norm=9.8e-6, norm_unit="TeV-1 cm-2 s-1 sr-1", index=-2.62,
                                   e_ref=1.0),
    "IRFDOC_ELECTRON_SPECTRUM": dict(kind="gauss", norm=2.385e-9, norm_unit="TeV-1 cm-2 s-1 sr-1",
                                     index=-3.43, e_ref=1.0, mu=-0.101, sigma=0.741, f=1.950),
}


#: published points of the combined proton and helium spectrum (GeV, flux)
DAMPE = np.array([
    (5.0, 241.37151783447848),
    (50.5185, 0.46837),
    (78.9163, 0.13929),
    (124.383, 0.040600),
    (199.575, 0.011277),
    (317.38, 0.0032219),
    (495.808, 0.00097386),
    (788.531, 0.00028617),
    (1254.06, 8.3702e-05),
    (1994.62, 2.5301e-05),
    (3116.73, 8.3056e-06),
    (4957.69, 2.5627e-06),
    (7956.55, 7.6322e-07),
    (12321.0, 2.4523e-07),
    (19946.8, 6.6955e-08),
    (100269.0, 8.5990e-10),
])


@st.composite
def published_case(draw):
    return dict(name=draw(st.sampled_from(sorted(PUBLISHED))),
                energy=gen.floats(draw, 5, 1e-2, 1e2, log=True), unit=gen.unit(draw, COMMON))


def published(case):
    c = PUBLISHED[case["name"]]
    s = getattr(spectral, case["name"])
    e = np.array(case["energy"])
    o.close(s(gen.q(e, "TeV", case["unit"])), formula(c, e, c["e_ref"]), case["name"], rtol=1e-9,
            unit=c["norm_unit"])
    f = spectral.DAMPE_P_He_SPECTRUM(gen.q(e, "TeV", case["unit"]))
    le, lf = np.log10(DAMPE[:, 0] / 1000), np.log10(DAMPE[:, 1])
    i = np.clip(np.searchsorted(le, np.log10(e)) - 1, 0, len(le) - 2)
    exp = lf[i] + (lf[i + 1] - lf[i]) * (np.log10(e) - le[i]) / (le[i + 1] - le[i])
    o.close(f, 10**exp, "DAMPE flux", rtol=1e-7, unit="GeV-1 m-2 s-1 sr-1")
    return [case["name"]], True


SUBS = [
    Sub("formula", call_case(), call, 1600, 30000, shards=3),
    Sub("cone", cone_case(), cone, 800, 15000, shards=2),
    Sub("weights", weights_case(), weights, 800, 15000, shards=2),
    Sub("from_simulation", sim_case(), from_simulation, 1200, 25000, shards=3),
    Sub("table", table_case(), table_spectrum, 900, 20000, shards=3),
    Sub("published", published_case(), published, 100, 1000),
]
