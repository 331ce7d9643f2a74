import io
import logging
import warnings

import numpy as np
from astropy.io import fits
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st
import ogadf_schema.irfs as schema

from harness import gen, oracle as o
from harness.core import Sub
from pyirf import __version__
from pyirf.io import (
    create_aeff2d_hdu, create_background_2d_hdu, create_background_3d_hdu, create_energy_dispersion_hdu,
    create_psf_table_hdu, create_rad_max_hdu,
)

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

RULE = (
    "sequences of one to three exports of any of the six kinds of responses with random shapes"
    " (different number of bins on each axis), units, dtypes, memory layouts, special values, header"
    " cards, written to fits and read back; non-trivial: the response has at least two bins on two axes"
)

KINDS = {
    # axes: name of the columns, kind; in the order of the array
    "aeff": dict(func=create_aeff2d_hdu, args=["true_energy_bins", "fov_offset_bins"], axes=["ENERG", "THETA"],
                 column="EFFAREA", unit="m2", units=["m2", "cm2", "km2"], classes=["EFF_AREA", None, "AEFF_2D"],
                 schema=schema.AEFF_2D, extname="EFFECTIVE AREA", order=[0, 1]),
    "edisp": dict(func=create_energy_dispersion_hdu, args=["true_energy_bins", "migration_bins", "fov_offset_bins"],
                  axes=["ENERG", "MIGRA", "THETA"], column="MATRIX", unit="", units=[None, "", None],
                  classes=["EDISP", None, "EDISP_2D"], schema=schema.EDISP_2D, extname="EDISP", order=[0, 1, 2]),
    "psf": dict(func=create_psf_table_hdu, args=["true_energy_bins", "source_offset_bins", "fov_offset_bins"],
                axes=["ENERG", "RAD", "THETA"], column="RPSF", unit="sr-1", units=["sr-1", "deg-2", "arcmin-2"],
                classes=["PSF", "FULL-ENCLOSURE", "PSF_TABLE"], schema=schema.PSF_TABLE, extname="PSF",
                order=[0, 2, 1]),
    "bkg2d": dict(func=create_background_2d_hdu, args=["reco_energy_bins", "fov_offset_bins"], axes=["ENERG", "THETA"],
                  column="BKG", unit="MeV-1 s-1 sr-1", units=["MeV-1 s-1 sr-1", "TeV-1 s-1 sr-1", "GeV-1 h-1 deg-2"],
                  classes=["BKG", "FULL-ENCLOSURE", "BKG_2D"], schema=schema.BKG_2D, extname="BACKGROUND", order=[0, 1]),
    "bkg3d": dict(func=create_background_3d_hdu, args=["reco_energy_bins", "fov_lon_bins", "fov_lat_bins"],
                  axes=["ENERG", "DETX", "DETY"], column="BKG", unit="MeV-1 s-1 sr-1",
                  units=["MeV-1 s-1 sr-1", "TeV-1 s-1 sr-1", "GeV-1 h-1 deg-2"],
                  classes=["BKG", "FULL-ENCLOSURE", "BKG_3D"], schema=schema.BKG_3D, extname="BACKGROUND", order=[0, 1, 2]),
    "radmax": dict(func=create_rad_max_hdu, args=["reco_energy_bins", "fov_offset_bins"], axes=["ENERG", "THETA"],
                   column="RAD_MAX", unit="deg", units=["deg", "rad", "arcmin"],
                   classes=["RAD_MAX", "POINT-LIKE", "RAD_MAX_2D"], schema=schema.RAD_MAX, extname="RAD_MAX", order=[0, 1]),
}
AXIS = {"ENERG": ("TeV", gen.E_UNITS), "THETA": ("deg", gen.ANG_UNITS), "RAD": ("deg", gen.ANG_UNITS),
        "DETX": ("deg", gen.ANG_UNITS), "DETY": ("deg", gen.ANG_UNITS), "MIGRA": (None, [None])}


CARDS = {"TELESCOP": ["CTA", "LST-1", ""], "INSTRUME": ["SOUTH", "x"], "OBS_ID": [1, 12345, 0], "LO_THRES": [0.25, 3.0, 0.0],
         "FLAG": [True, False], "CREATOR": ["me", ""], "DATE": ["2020-02-29", "2020-02-29T12:00:00"]}
#: cards which every HDU has
DEFAULTS = ["CREATOR", "DATE", "HDUDOC"]


@st.composite
def hdu_case(draw, kinds=tuple(KINDS)):
    kind = draw(st.sampled_from(kinds))
    k = KINDS[kind]
    edges, units = {}, {}
    # large responses have many bins on all axes
    large = gen.rare(draw, 15)
    for ax in k["axes"]:
        n = draw(st.integers(8, 20)) if large else draw(st.integers(1, 5))
        if gen.rare(draw, 12):
            n = draw(st.integers(6, 30))
        if ax == "ENERG":
            e = gen.edges(draw, 0.01, 100, n, n, log=True)
        elif ax == "MIGRA":
            e = gen.edges(draw, 0.2, 5, n, n)
        elif ax in ("DETX", "DETY"):
            e = gen.edges(draw, -6, 6, n, n)
        elif draw(st.booleans()):
            e = gen.edges(draw, 0.1, 5, n, n)
        else:
            e = [0.0] + gen.edges(draw, 0.5, 5, n - 1, n - 1) if n > 1 else [0.0, 1.0]
        if ax == "DETY" and draw(st.integers(0, 2)) == 1:
            # related to the other axis
            e = draw(st.sampled_from([edges["DETX"], [-x for x in reversed(edges["DETX"])]]))
        edges[ax] = e
        units[ax] = gen.unit(draw, AXIS[ax][1])
    size = int(np.prod([len(e) - 1 for e in edges.values()]))
    log = draw(st.booleans())
    cards = {k: draw(st.sampled_from(v)) for k, v in CARDS.items() if draw(st.integers(0, 3)) == 2}
    return dict(
        kind=kind, edges=edges, units=units,
        values=gen.floats(draw, size, 1e-9 if log else -1, 1e9 if log else 3, [0.0, 1.0, 1e-30], log=log),
        special=draw(st.sampled_from(["", "", "", "nan", "inf"])),
        unit=gen.unit(draw, k["units"]), dtype=draw(st.sampled_from(["f8", "f8", "f4"])),
        layout=draw(st.sampled_from(["c", "f", "strided"])), cards=cards,
        point_like=draw(st.sampled_from([None, True, False])),
        extname=draw(st.sampled_from([None, None, "MY RESPONSE", "EXT7"])),
        alignment=draw(st.sampled_from([None, "ALTAZ", "RADEC"])), positional=draw(st.booleans()),
    )


@st.composite
def history(draw):
    return dict(hdus=[draw(hdu_case()) for _ in range(draw(st.integers(1, 3)))], own_files=draw(st.booleans()))


def array(case):
    k = KINDS[case["kind"]]
    # order of the axes in the array
    shape = [len(case["edges"][k["axes"][i]]) - 1 for i in k["order"]]
    a = np.array(case["values"]).reshape(shape).astype(case["dtype"])
    if case["special"]:
        a.reshape(-1)[0] = float(case["special"])
    if case["layout"] == "f":
        a = np.asfortranarray(a)
    elif case["layout"] == "strided":
        a = np.repeat(a, 2, axis=0)[::2]
    if case["unit"] is not None:
        return u.Quantity(a, case["unit"]), shape
    return a, shape


def bins_of(case, ax):
    base, _ = AXIS[ax]
    return np.array(case["edges"][ax]) if base is None else gen.q(case["edges"][ax], base, case["units"][ax])


def create(case):
    k = KINDS[case["kind"]]
    a, shape = array(case)
    bins = {name: bins_of(case, ax) for name, ax in zip(k["args"], k["axes"])}
    kwargs = dict(case["cards"])
    if k["classes"][1] != "FULL-ENCLOSURE" and case["point_like"] is not None:
        kwargs["point_like"] = case["point_like"]
    if case["extname"] is not None:
        kwargs["extname"] = case["extname"]
    if case["kind"] == "bkg3d" and case["alignment"] is not None:
        kwargs["alignment"] = case["alignment"]
    before = [np.array(u.Quantity(x).value, copy=True) for x in [a, *bins.values()]]
    if case["positional"]:
        hdu = k["func"](a, *bins.values(), **kwargs)
    else:
        hdu = k["func"](a, **bins, **kwargs)
    for x, b in zip([a, *bins.values()], before):
        o.same(u.Quantity(x).value, b, "input after the call")
    return hdu


def check_hdu(case, hdu, what):
    """hdu as read from the file"""
    k = KINDS[case["kind"]]
    header = hdu.header
    o.check(hdu.name == (case["extname"] or k["extname"]), f"{what}: name is {hdu.name}")
    point_like = case["point_like"] is not False
    enclosure = k["classes"][1] or ("POINT-LIKE" if point_like else "FULL-ENCLOSURE")
    expected = {"HDUCLASS": "GADF", "HDUVERS": "0.2", "HDUCLAS1": "RESPONSE", "HDUCLAS2": k["classes"][0],
                "HDUCLAS3": enclosure, "HDUCLAS4": k["classes"][2], **case["cards"]}
    if case["kind"] == "bkg3d":
        expected["FOVALIGN"] = case["alignment"] or "ALTAZ"
    for key, v in expected.items():
        o.check(key in header, f"{what}: {key} not in the header")
        o.check(header[key] == v and isinstance(header[key], type(v)), f"{what}: {key} is {header[key]!r}, expected {v!r}")
    for key in DEFAULTS:
        o.check(key in header, f"{what}: {key} not in the header")
    o.check(header["CREATOR"] == expected.get("CREATOR", f"pyirf v{__version__}"), f"{what}: CREATOR is {header['CREATOR']}")
    for key in [*CARDS, "FOVALIGN"]:
        o.check(key not in header or key in expected or key in DEFAULTS, f"{what}: header card {key} of another HDU")
    t = QTable.read(hdu)
    o.check(len(t) == 1, f"{what}: number of rows is {len(t)}")
    columns = [f"{ax}_{x}" for ax in k["axes"] for x in ("LO", "HI")] + [k["column"]]
    o.check(sorted(t.colnames) == sorted(columns), f"{what}: columns are {t.colnames}")
    for ax in k["axes"]:
        base, _ = AXIS[ax]
        e = np.array(case["edges"][ax])
        for x, v in (("LO", e[:-1]), ("HI", e[1:])):
            col = t[f"{ax}_{x}"]
            o.close(col[0], v, f"{what}: {ax}_{x}", unit=base, rtol=1e-12, atol=1e-14)
            if base is not None:
                o.check(col.unit == u.Unit(base), f"{what}: unit of {ax}_{x} is {col.unit}")
    got = t[k["column"]]
    a, shape = array(case)
    expected = np.asarray(u.Quantity(a).to_value(k["unit"] or u.one), dtype=float)
    if k["unit"]:
        o.check(got.unit == u.Unit(k["unit"]), f"{what}: unit of {k['column']} is {got.unit}")
    got = np.asarray(u.Quantity(got).to_value(k["unit"] or u.one), dtype=float)[0]
    rtol = 1e-6 if case["dtype"] == "f4" else 1e-12
    o.close(got.T, expected, f"{what}: {k['column']}", rtol=rtol)
    # the reference to the axes: fits order is the reverse of the numpy order
    idx = [c for c in hdu.columns.names].index(k["column"]) + 1
    cref = header[f"CREF{idx}"].strip("()").split(",")
    o.check(len(cref) == got.ndim, f"{what}: CREF {cref}")
    for n, pair in zip(got.T.shape, cref):
        lo, hi = pair.split(":")
        o.check(lo[:-3] == hi[:-3] and lo.endswith("_LO") and hi.endswith("_HI"), f"{what}: CREF {cref}")
        o.check(t[lo].shape == (1, n) and t[hi].shape == (1, n), f"{what}: {pair} does not match {got.T.shape}")
    order = [k["axes"][i] for i in k["order"]]
    o.check([p.split(":")[0][:-3] for p in cref] == order, f"{what}: CREF {cref}, expected {order}")
    k["schema"].validate_hdu(hdu)


def roundtrip(case):
    hdus = [create(c) for c in case["hdus"]]
    groups = [[i] for i in range(len(hdus))] if case["own_files"] else [list(range(len(hdus)))]
    labels = []
    for group in groups:
        data = io.BytesIO()
        fits.HDUList([fits.PrimaryHDU(), *[hdus[i] for i in group]]).writeto(data)
        data.seek(0)
        with fits.open(data) as f:
            for pos, i in enumerate(group):
                c = case["hdus"][i]
                check_hdu(c, f[1 + pos], f"{c['kind']} ({i})")
                labels.append(c["kind"])
    shapes = [[len(e) - 1 for e in c["edges"].values()] for c in case["hdus"]]
    return labels, any(sum(n > 1 for n in s) > 1 for s in shapes)


# ------------------------------------------------------------------ gammapy

def gammapy_read(case):
    from gammapy.irf import Background2D, Background3D, EffectiveAreaTable2D, EnergyDispersion2D, PSF3D, RadMax2D
    cls = dict(aeff=EffectiveAreaTable2D, edisp=EnergyDispersion2D, psf=PSF3D, bkg2d=Background2D,
               bkg3d=Background3D, radmax=RadMax2D)[case["kind"]]
    names = dict(aeff=["energy_true", "offset"], edisp=["energy_true", "migra", "offset"],
                 psf=["energy_true", "rad", "offset"], bkg2d=["energy", "offset"],
                 bkg3d=["energy", "fov_lon", "fov_lat"], radmax=["energy", "offset"])[case["kind"]]
    k = KINDS[case["kind"]]
    hdu = create(case)
    data = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(data)
    data.seek(0)
    with fits.open(data) as f:
        irf = cls.from_hdulist(f, hdu=case["extname"] or k["extname"])
        a, shape = array(case)
        expected = np.asarray(u.Quantity(a).to_value(k["unit"] or u.one), dtype=float)
        order = [names[i] for i in k["order"]]
        o.check(list(irf.axes.names) == order, f"axes are {irf.axes.names}, expected {order}")
        o.close(irf.quantity, expected, "data", unit=k["unit"] or None, rtol=1e-6 if case["dtype"] == "f4" else 1e-12)
        for name, ax in zip(names, k["axes"]):
            o.close(irf.axes[name].edges, np.array(case["edges"][ax]), f"edges of {name}", unit=AXIS[ax][0],
                    rtol=1e-9, atol=1e-12)
        if case["kind"] in ("aeff", "edisp"):
            o.check(irf.is_pointlike == (case["point_like"] is not False), "is_pointlike")
    return [case["kind"]], sum(n > 1 for n in shape) > 1


# ------------------------------------------------------------------ invalid

def invalid(case):
    k = KINDS[case["kind"]]
    a, _ = array(case)
    bins = [bins_of(case, ax) for ax in k["axes"]]
    wrong = u.Quantity(np.asarray(u.Quantity(a).value), "kg")
    o.raises((u.UnitsError, TypeError), k["func"], wrong, *bins, what="response in kg")
    for i, ax in enumerate(k["axes"]):
        if ax != "MIGRA":
            b = list(bins)
            b[i] = u.Quantity(b[i].value, "kg")
            o.raises((u.UnitsError, TypeError), k["func"], a, *b, what=f"{ax} in kg")
    if case["kind"] == "bkg3d":
        for alignment in ("GALACTIC", "ALT", "", "ICRS"):
            o.raises(ValueError, k["func"], a, *bins, alignment=alignment, what=f"alignment {alignment}")
    return [case["kind"]], True


SUBS = [
    Sub("roundtrip", history(), roundtrip, 500, 10000, shards=4),
    Sub("gammapy", hdu_case(), gammapy_read, 400, 8000, shards=3),
    Sub("invalid", hdu_case(), invalid, 120, 1500),
]
