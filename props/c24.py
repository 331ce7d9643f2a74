import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
from astropy.io import fits
from astropy.table import QTable
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Sub
from pyirf.io import read_eventdisplay_fits
from pyirf.io.eventdisplay import COLUMN_MAP
from pyirf.simulations import SimulatedEventsInfo

warnings.simplefilter("ignore")

RULE = (
    "files with the three tables of an event display DL2 file in any order, random events of several"
    " runs and pointings, large numbers of showers in different integer types, run headers with and"
    " without units, additional columns and tables, both ways to count the showers; non-trivial: at"
    " least two runs"
)

COLUMNS = {
    "obs_id": ("OBS_ID", None), "event_id": ("EVENT_ID", None), "true_energy": ("MC_ENERGY", "TeV"),
    "reco_energy": ("ENERGY", "TeV"), "true_alt": ("MC_ALT", "deg"), "true_az": ("MC_AZ", "deg"),
    "pointing_alt": ("PNT_ALT", "deg"), "pointing_az": ("PNT_AZ", "deg"), "reco_alt": ("ALT", "deg"),
    "reco_az": ("AZ", "deg"), "gh_score": ("GH_MVA", None), "multiplicity": ("MULTIP", None),
}


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([1, 2, 5, 20, 60]))
    n_runs = gen.count(draw, 1, 5, 40)
    n_bins = gen.count(draw, 1, 6, 80)
    big = draw(st.booleans())
    return dict(
        n=n, run=gen.ints(draw, n, 0, n_runs - 1), obs=draw(st.lists(st.one_of(
            st.sampled_from([7, 8]), st.integers(1, 10**5), st.integers(2**31, 2**40),
        ), min_size=n_runs, max_size=n_runs)),
        pointing=[[draw(st.sampled_from([0.0, 180.0, 180.0001, 20.5])), draw(st.sampled_from([70.0, 50.0, 50.0001]))] for _ in range(n_runs)],
        values=gen.floats(draw, 8 * n, 0.01, 60), ids=gen.ints(draw, n, 0, 10**6), mult=gen.ints(draw, n, 2, 20),
        hist=gen.ints(draw, n_bins, 0, 2_000_000_000 if big else 5000),
        hist_type=draw(st.sampled_from(["i4", "i8", "f8", "i8"])),
        num_use=draw(st.sampled_from([1, 10, 20])), num_showers=draw(st.sampled_from([1, 20000, 50000, 200_000_000 if big else 100])),
        int_type=draw(st.sampled_from(["i4", "i8", "i4"])), use_type=draw(st.sampled_from(["i4", "i8", "i2"])),
        e_range=draw(st.sampled_from([[0.003, 330.0], [0.01, 100.0]])), core=draw(st.sampled_from([[0.0, 1900.0], [10.0, 500.0]])),
        index=draw(st.sampled_from([-2.0, -2.5, -1.0])), viewcone=draw(st.sampled_from([[0.0, 0.0], [0.0, 10.0], [1.0, 5.0]])),
        units=draw(st.sampled_from(["none", "none", "same", "other"])), float_type=draw(st.sampled_from(["f4", "f8"])),
        order=draw(st.permutations(range(3))), extra=draw(st.booleans()), path=draw(st.booleans()),
        use_histogram=draw(st.sampled_from([None, True, False, False])),
        drop_units=gen.rare(draw, 6), bulk=ev.tile(draw, n),
    )


def write(case, path):
    n = case["n"]
    row = np.array(ev.expand(range(n), case["bulk"]))
    run = np.array(case["run"], int)[row]
    v = np.array(case["values"]).reshape(8, n)[:, row]
    pointing = np.array(case["pointing"])[run]
    cols = dict(
        obs_id=np.array(case["obs"])[run], event_id=np.array(case["ids"], int)[row], true_energy=v[0], reco_energy=v[1],
        true_alt=v[2], true_az=v[3], pointing_alt=pointing[:, 1], pointing_az=pointing[:, 0],
        reco_alt=v[4], reco_az=v[5], gh_score=v[6] / 30 - 1, multiplicity=np.array(case["mult"], int)[row],
    )
    events = QTable()
    for name, x in cols.items():
        old, unit = COLUMNS[name]
        if x.dtype.kind == "f":
            x = x.astype(case["float_type"])
            cols[name] = x.astype(float)
        events[old] = x if unit is None or case["drop_units"] else u.Quantity(x, unit)
    if case["extra"]:
        events["XMAX"] = v[7]
    sim = QTable()
    sim["EVENTS"] = np.array(case["hist"]).astype(case["hist_type"])
    sim["MC_ENERG_LO"] = np.arange(len(sim)) * 1.0 * u.TeV
    header = QTable()
    header["num_use"] = np.array([case["num_use"]], case["use_type"])
    header["num_showers"] = np.array([case["num_showers"]], case["int_type"])
    header["spectral_index"] = np.array([case["index"]], case["float_type"])
    for key, values, unit, other in (("E_range", case["e_range"], "TeV", "GeV"), ("core_range", case["core"], "m", "km"),
                                     ("viewcone", case["viewcone"], "deg", "rad")):
        x = np.array([values])
        if case["units"] == "same":
            x = u.Quantity(x, unit)
        elif case["units"] == "other":
            x = u.Quantity(x, unit).to(other)
        header[key] = x.astype(case["float_type"])
    tables = [(events, "EVENTS"), (sim, "SIMULATED EVENTS"), (header, "RUNHEADER")]
    hdus = [fits.PrimaryHDU()]
    if case["int_type"] == "i4" and max(case["obs"]) < 2**31:
        for k in ("OBS_ID", "EVENT_ID", "MULTIP"):
            events[k] = events[k].astype("i2" if k == "MULTIP" else "i4")
    for i in case["order"]:
        t, name = tables[i]
        hdu = fits.table_to_hdu(t)
        hdu.name = name
        hdus.append(hdu)
    if case["extra"]:
        hdus.insert(1, fits.BinTableHDU(QTable({"EVENTS": [1, 2, 3]}), name="OTHER"))
    fits.HDUList(hdus).writeto(path)
    return cols


def read(case):
    scratch = tempfile.mkdtemp(prefix="pyirf-c24-", dir="/tmp")
    try:
        path = os.path.join(scratch, "events.fits")
        cols = write(case, path)
        with open(path, "rb") as f:
            content = f.read()
        kwargs = {} if case["use_histogram"] is None else dict(use_histogram=case["use_histogram"])
        events, info = read_eventdisplay_fits(pathlib.Path(path) if case["path"] else path, **kwargs)
        with open(path, "rb") as f:
            o.check(f.read() == content, "the file was changed")
        o.check(os.listdir(scratch) == ["events.fits"], "other files were written")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    o.check(isinstance(events, QTable), "no QTable")
    o.check(isinstance(info, SimulatedEventsInfo), "no SimulatedEventsInfo")
    expected = set(COLUMNS) | ({"XMAX"} if case["extra"] else set())
    o.check(set(events.colnames) == expected, f"columns are {events.colnames}")
    o.check(len(events) == len(cols["obs_id"]), "number of events")
    for name, x in cols.items():
        unit = None if case["drop_units"] else COLUMNS[name][1]
        o.close(events[name], x, name, unit=unit, rtol=1e-12)
    pairs = {(case["obs"][r], *case["pointing"][r]) for r in case["run"]}
    if case["use_histogram"] is False:
        n_showers = len(pairs) * case["num_use"] * case["num_showers"]
    else:
        n_showers = sum(case["hist"])
    o.check(info.n_showers == n_showers, f"n_showers is {info.n_showers}, expected {n_showers}")
    rtol = 1e-6 if case["float_type"] == "f4" else 1e-12
    for name, x, unit in (("energy_min", case["e_range"][0], "TeV"), ("energy_max", case["e_range"][1], "TeV"),
                          ("max_impact", case["core"][1], "m"), ("viewcone_min", case["viewcone"][0], "deg"),
                          ("viewcone_max", case["viewcone"][1], "deg")):
        o.close(getattr(info, name), x, name, unit=unit, rtol=rtol, atol=1e-12)
    o.close(info.spectral_index, case["index"], "spectral index", rtol=rtol)
    labels = [f"use_histogram={case['use_histogram']}", f"{case['units']} units"]
    if n_showers > 2**31:
        labels.append("more than 2**31 showers")
    return labels, len(pairs) > 1


SUBS = [Sub("read", case_strategy(), read, 500, 8000, shards=8)]
