import io
import logging
import warnings

import numpy as np
from astropy.io import fits
import astropy.units as u
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Sub
from props.c22 import AXIS, KINDS, array, bins_of, hdu_case
from pyirf.gammapy import create_effective_area_table_2d, create_energy_dispersion_2d, create_psf_3d
from pyirf.io import create_aeff2d_hdu, create_energy_dispersion_hdu, create_psf_table_hdu

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

RULE = (
    "effective areas, point spread functions and energy dispersions of random shape (different"
    " number of bins on each axis), units, dtypes and memory layouts; also evaluated at the bin"
    " centers and compared to the export as file; non-trivial: more than one bin on two axes"
)

FUNCS = {
    "aeff": (create_effective_area_table_2d, ["energy_true", "offset"], create_aeff2d_hdu, "effective_area"),
    "edisp": (create_energy_dispersion_2d, ["energy_true", "migra", "offset"], create_energy_dispersion_hdu, "energy_dispersion"),
    "psf": (create_psf_3d, ["energy_true", "rad", "offset"], create_psf_table_hdu, "psf"),
}


def objects(case):
    k = KINDS[case["kind"]]
    func, names, hdu_func, first = FUNCS[case["kind"]]
    if case["kind"] == "edisp" and case["unit"] is not None:
        case["unit"] = None
    if case["special"]:
        case["special"] = ""
    a, shape = array(case)
    if first != "energy_dispersion":
        a = u.Quantity(a)
    bins = [bins_of(case, ax) for ax in k["axes"]]
    before = [np.array(u.Quantity(x).value, copy=True) for x in [a, *bins]]
    if case["positional"]:
        irf = func(a, *bins)
    else:
        irf = func(**{first: a}, **dict(zip(k["args"], bins)))
    for x, b in zip([a, *bins], before):
        o.same(u.Quantity(x).value, b, "input after the call")
    order = [names[i] for i in k["order"]]
    o.check(list(irf.axes.names) == order, f"axes are {irf.axes.names}, expected {order}")
    unit = k["unit"] or None
    expected = np.asarray(u.Quantity(a).to_value(unit or u.one), dtype=float)
    rtol = 1e-6 if case["dtype"] == "f4" else 1e-12
    o.close(irf.quantity, expected, "data", unit=unit, rtol=rtol)
    for name, ax in zip(names, k["axes"]):
        o.close(irf.axes[name].edges, np.array(case["edges"][ax]), f"edges of {name}", unit=AXIS[ax][0],
                rtol=1e-9, atol=1e-12)
    # the same as the export to a file
    hdu = hdu_func(a, *bins)
    data = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(data)
    data.seek(0)
    with fits.open(data) as f:
        other = type(irf).from_hdulist(f, hdu=hdu.name)
        o.check(other.axes.names == irf.axes.names, "axes of the file and of the object")
        o.close(other.quantity, expected, "data read from the file", unit=unit, rtol=rtol)
        for name in names:
            o.close(other.axes[name].edges, irf.axes[name].edges.to_value(other.axes[name].unit), f"edges of {name} in the file",
                    unit=other.axes[name].unit, rtol=1e-9, atol=1e-12)
    # evaluation at the center of the bins yields the content of the bins
    labels = [case["kind"]]
    if all(n > 1 for n in shape) and not (expected <= 0).any():
        # in the middle between the edges
        centers = {}
        for name, ax in zip(names, k["axes"]):
            e = np.array(case["edges"][ax])
            i = order.index(name)
            centers[name] = u.Quantity((e[1:] + e[:-1]) / 2, AXIS[ax][0] or "").reshape(
                [-1 if j == i else 1 for j in range(len(order))])
        got = irf.evaluate(**centers)
        o.close(got, expected, "value at the bin centers", unit=unit, rtol=1e-4, atol=1e-10 * expected.max())
        labels.append("evaluated")
    return labels, sum(n > 1 for n in shape) > 1


def invalid(case):
    k = KINDS[case["kind"]]
    func, names, _, _ = FUNCS[case["kind"]]
    case["unit"] = case["unit"] if case["kind"] != "edisp" else None
    a, _ = array(case)
    bins = [bins_of(case, ax) for ax in k["axes"]]
    if case["kind"] != "edisp":
        o.raises((u.UnitsError, TypeError), func, u.Quantity(np.asarray(u.Quantity(a).value), "kg"), *bins, what="data in kg")
    for i, ax in enumerate(k["axes"]):
        if ax != "MIGRA":
            b = list(bins)
            b[i] = u.Quantity(b[i].value, "kg")
            o.raises((u.UnitsError, TypeError), func, a, *b, what=f"{ax} in kg")
    return [case["kind"]], True


SUBS = [
    Sub("objects", hdu_case(tuple(FUNCS)), objects, 700, 12000, shards=7),
    Sub("invalid", hdu_case(tuple(FUNCS)), invalid, 80, 1000),
]
