import math

import astropy.units as u
import numpy as np
from astropy.coordinates import Angle
from astropy.table import QTable, Table
from hypothesis import strategies as st

from harness import gen, oracle as o
from harness.core import Sub
from pyirf.exceptions import IRFException, MissingColumns, WrongColumnUnit
from pyirf.interpolation import PDFNormalization
from pyirf.interpolation.utils import get_bin_width
from pyirf.utils import check_histograms, check_table, cone_solid_angle, is_scalar, rectangle_solid_angle

RULE = (
    "opening angles and rectangles in any unit, tables with present and missing columns of any unit, pairs of"
    " histograms which are equal or differ in one bin or in the number of bins; non-trivial: angles in mixed units or a"
    " mismatch in one place only"
)


@st.composite
def angle_case(draw):
    n = gen.count(draw, 1, 6, 60)
    return dict(
        angle=gen.floats(draw, n, 0, 180, [0, 180, 90, 1e-3, 1e-6], max_specials=2), unit=gen.unit(draw, gen.ANG_UNITS),
        kind=draw(st.sampled_from(["quantity", "scalar", "angle", "table"])),
        corners=[gen.floats(draw, 2, lo, hi, sp, max_specials=1) for lo, hi, sp in ((-180, 360, [0]), (-90, 90, [-90, 90, 0]))],
        split=gen.fractions(draw, 2), units=[gen.unit(draw, gen.ANG_UNITS) for _ in range(4)],
        dtype=draw(st.sampled_from(["f8", "f8", "f4"])),
    )


def angles(case):
    a = np.array(case["angle"])
    if case["kind"] == "scalar":
        a = a[0]
    q = gen.q(a, "deg", case["unit"])
    tol = 4e-15
    if case["dtype"] == "f4":
        q = u.Quantity(q, dtype="f4")
        a = np.asarray(q.to_value(u.deg), dtype="f8")
        tol = 5e-6
    if case["kind"] == "angle":
        q = Angle(q)
    if case["kind"] == "table":
        q = QTable({"a": q})["a"]
    out = cone_solid_angle(q)
    o.close(out, o.cone(np.deg2rad(a)), "cone", unit="sr", rtol=0, atol=tol * 2 * math.pi)
    o.check(is_scalar(out) == (case["kind"] == "scalar"), "is_scalar of the result")
    # widths of bins of a cone
    e = np.unique(np.deg2rad(np.array(case["angle"])))
    if len(e) > 1:
        o.close(get_bin_width(e, PDFNormalization.CONE_SOLID_ANGLE), np.diff(o.cone(e)), "bins of a cone", rtol=0, atol=1e-13)
        o.close(get_bin_width(e, PDFNormalization.AREA), e[1:] - e[:-1], "width of bins", rtol=1e-14)
        o.raises(ValueError, get_bin_width, e, "area", what="unknown normalization")
    # rectangles
    (l1, l2), (b1, b2) = case["corners"]
    q = [gen.q(x, "deg", k) for x, k in zip((l1, l2, b1, b2), case["units"])]
    expected = np.deg2rad(l2 - l1) * 2 * math.cos(math.radians(b1 + b2) / 2) * math.sin(math.radians(b2 - b1) / 2)
    o.close(rectangle_solid_angle(*q), expected, "rectangle", unit="sr", rtol=1e-9, atol=1e-13)
    # parts add up
    f, g = case["split"]
    l3, b3 = (l1 + f * (l2 - l1)) * u.deg, (b1 + g * (b2 - b1)) * u.deg
    parts = [rectangle_solid_angle(*p) for p in (
        (q[0], l3, q[2], b3), (l3, q[1], q[2], b3), (q[0], l3, b3, q[3]), (l3, q[1], b3, q[3]))]
    o.close(sum(parts), expected, "sum of rectangles", unit="sr", rtol=1e-9, atol=1e-12)
    # a cap is a cone
    cap = rectangle_solid_angle(0 * u.deg, 360 * u.deg, q[2], 90 * u.deg)
    o.close(cap, o.cone(np.deg2rad(90 - b1)), "polar cap", unit="sr", rtol=1e-9, atol=1e-13)
    lon, lat = np.linspace(l1, l2, 4) * u.deg, np.linspace(b1, b2, 3) * u.deg
    grid = rectangle_solid_angle(lon[:-1, None], lon[1:, None], lat[:-1], lat[1:])
    o.shape_is(grid, (3, 2), "array of rectangles")
    o.close(grid.sum(), expected, "array of rectangles", unit="sr", rtol=1e-9, atol=1e-12)
    return [case["kind"], case["dtype"]], len(set(case["units"])) > 1


NAMES = ["true_energy", "reco_energy", "weight", "theta", "gh_score", "n"]
UNITS = {"true_energy": "TeV", "reco_energy": "TeV", "weight": "", "theta": "deg", "gh_score": None, "n": None}
EQUIVALENT = {"TeV": ["TeV", "GeV", "erg", "J"], "deg": ["deg", "rad", "arcsec"], "": ["", "percent"]}


@st.composite
def table_case(draw):
    present = draw(st.permutations(NAMES))[: draw(st.integers(0, len(NAMES)))]
    return dict(
        present=present, n=draw(st.integers(0, 4)), table=draw(st.sampled_from(["QTable", "QTable", "Table"])),
        columns=draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES), max_size=5))),
        kind=draw(st.sampled_from(["list", "set", "tuple", "keys", "generator"])),
        units=draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(NAMES[:4]), st.integers(0, 3), max_size=4))),
        change=draw(st.one_of(st.none(), st.tuples(st.sampled_from(NAMES), st.sampled_from(["TeV", "deg", "m", "s-1", None])))),
    )


def tables(case):
    cls = QTable if case["table"] == "QTable" else Table
    t = cls()
    units = dict(UNITS)
    if case["change"]:
        units[case["change"][0]] = case["change"][1]
    for name in case["present"]:
        t[name] = np.ones(case["n"])
        if units[name] is not None:
            if cls is QTable:
                t[name] = u.Quantity(np.ones(case["n"]), units[name])
            else:
                t[name].unit = units[name]
    wanted = case["columns"]
    required = None
    if wanted is not None:
        required = dict(list=list, set=set, tuple=tuple, keys=lambda x: dict.fromkeys(x).keys(),
                        generator=lambda x: (c for c in x))[case["kind"]](wanted)
    want_units = None
    if case["units"] is not None:
        want_units = {k: u.Unit(EQUIVALENT[UNITS[k]][v % len(EQUIVALENT[UNITS[k]])]) for k, v in case["units"].items()}
    expected = None
    missing = sorted(set(wanted or []) - set(case["present"]))
    if missing:
        expected = MissingColumns
    elif want_units:
        # any of the errors if more than one applies
        possible = set()
        for k, unit in want_units.items():
            if k not in case["present"]:
                possible.add(MissingColumns)
            else:
                have = units[k]
                if have is None and unit.is_equivalent(u.one):
                    # a column without unit is not dimensionless for astropy
                    possible.add(None)
                elif have is None or not u.Unit(have).is_equivalent(unit):
                    possible.add(WrongColumnUnit)
        if None in possible:
            return ["unit not defined"], False
        expected = tuple(possible) or None
    try:
        out = check_table(t, required_columns=required, required_units=want_units)
    except IRFException as e:
        o.check(expected is not None and isinstance(e, expected), f"raised {type(e)}, expected {expected}")
        for name in missing:
            o.check(name in str(e), f"missing column {name} is not in the message {e}")
        if not missing:
            o.check(any(k in str(e) for k in want_units), "no name of a column in the message")
    else:
        o.check(expected is None, f"did not raise {expected}")
        o.check(out is None, "returned something")
    o.check(t.colnames == case["present"], "columns changed")
    label = "fine" if expected is None else "missing" if missing else "unit"
    return [label, case["table"]], len(missing) == 1 or label == "unit"


@st.composite
def hist_case(draw):
    n = gen.count(draw, 1, 8, 60)
    return dict(
        edges=gen.edges(draw, 0.01, 100, n, n, log=True), key=draw(st.sampled_from([None, "reco_energy", "true_energy"])),
        units=gen.unit_pair(draw, ["TeV", "GeV"]), contents=gen.ints(draw, 2 * n, 0, 20),
        change=draw(st.sampled_from([None, "low", "high", "center", "bins"])), pos=draw(st.integers(0, n - 1)),
        factor=draw(st.sampled_from([1.5, 1.001, 0.9])),
    )


def hists(case):
    def table(e, k):
        t = QTable()
        key = case["key"] or "reco_energy"
        t[key + "_low"], t[key + "_high"] = e[:-1], e[1:]
        t[key + "_center"] = (e[1:] + e[:-1]) / 2
        n = len(e) - 1
        t["n"] = np.array(case["contents"][k * n:(k + 1) * n] + [0] * n)[:n]
        return t

    # binary fractions, so that other units are exact
    e = np.round(np.array(case["edges"]) * 2**20) / 2**20 + np.arange(len(case["edges"])) / 2**20
    a = table(e * u.TeV, 0)
    b = table(e * u.TeV, 1)
    if case["units"][1] == "GeV":
        for c in b.colnames[:3]:
            b[c] = b[c].to(u.GeV)
        exact = all(np.all(a[c] == b[c]) for c in a.colnames[:3])
        if not exact:
            b = table(e * u.TeV, 1)
    key = case["key"] or "reco_energy"
    kw = {} if case["key"] is None else dict(key=key)
    if case["change"] in ("low", "high", "center"):
        b[f"{key}_{case['change']}"][case["pos"]] *= case["factor"]
    elif case["change"] == "bins":
        f = np.append(e, e[-1] * 2)
        b = table(f * u.TeV, 1)
    if case["change"] is None:
        o.check(check_histograms(a, b, **kw) is None, "returned something")
        check_histograms(b, a, **kw)
    else:
        o.raises(ValueError, check_histograms, a, b, what=f"different {case['change']}", **kw)
        o.raises(ValueError, check_histograms, b, a, what=f"different {case['change']}", **kw)
    return [str(case["change"])], case["change"] is not None


@st.composite
def scalar_case(draw):
    return dict(value=draw(st.one_of(st.floats(), st.integers(-5, 5), st.lists(st.floats(), max_size=3),
                                     st.lists(st.lists(st.integers(0, 3), min_size=2, max_size=2), min_size=1, max_size=2))),
                kind=draw(st.sampled_from(["plain", "array", "quantity", "list", "f4"])))


def scalars(case):
    v = case["value"]
    expected = not isinstance(v, list)
    if case["kind"] == "array":
        v = np.array(v)
    elif case["kind"] == "quantity":
        v = u.Quantity(v, "TeV")
    elif case["kind"] == "list" and isinstance(v, list):
        v = tuple(v)
    elif case["kind"] == "f4" and expected:
        v = np.float32(v)
    out = is_scalar(v)
    o.check(bool(out) == expected, f"is_scalar({v!r}) is {out}")
    return [case["kind"]], True


SUBS = [
    Sub("angles", angle_case(), angles, 800, 20000),
    Sub("tables", table_case(), tables, 1500, 40000, shards=2),
    Sub("histograms", hist_case(), hists, 500, 10000, shards=2),
    Sub("scalars", scalar_case(), scalars, 500, 5000),
]
