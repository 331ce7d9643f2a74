import warnings

import astropy.units as u
import numpy as np
from astropy.coordinates import Angle, Latitude, Longitude
from astropy.table import QTable, Table
from hypothesis import strategies as st

from harness import oracle as o, ops
from harness.core import Skip, Sub

warnings.simplefilter("ignore")

RULE = (
    "every operation of the library on random inputs in two representations of the same values: other units, byte order,"
    " memory layout, read-only arrays, integers, dimensionless quantities (also scaled, percent) instead of numbers, order of events, order of columns with additional columns and metadata, Angle instead"
    " of Quantity; non-trivial: the inputs really are different objects in memory and the result has at least one finite non-zero number"
)
ASSUMPTIONS = [
    "values are not within rounding of bin edges or cuts (probability zero for the random inputs), results are compared to the tolerance given for"
    " each operation, 1e-8 for direct calculations and 1e-5 for iterative and interpolated results",
]

TRANSFORMS = ["units", "units", "byteorder", "strided", "readonly", "rows", "columns", "angle"]


class EventTable(QTable):
    """a derived class"""


def map_inputs(obj, func, name=""):
    """func(name, array or Quantity) for all numeric arrays of the inputs"""
    if isinstance(obj, Table):
        out = type(obj)()
        for c in obj.colnames:
            out[c] = func(f"{name}.{c}", obj[c]) if obj[c].dtype.kind in "fiub" else obj[c]
        return out
    if type(obj).__module__.startswith("pyirf"):
        return type(obj)(**{k: func(name, getattr(obj, k)) if isinstance(getattr(obj, k), u.Quantity) else getattr(obj, k)
                            for k in type(obj).__slots__})
    if isinstance(obj, np.ndarray):
        return func(name, obj)
    return obj


def equivalent_unit(unit, rng):
    for group in ops.EQUIVALENT:
        if unit.is_equivalent(u.Unit(group[0])) and unit != u.dimensionless_unscaled:
            others = [x for x in group if u.Unit(x) != unit]
            return u.Unit(others[rng.integers(len(others))])
    return unit


def plain(q):
    return getattr(q, "value", q), getattr(q, "unit", None)


def with_unit(a, unit):
    return a if unit is None else u.Quantity(a, unit, copy=False, subok=False)


def transform(kind, op, inputs, rng):
    """Returns inputs, permutation, number of changes"""
    changes = []
    perm = None

    def units(name, q):
        if not isinstance(q, u.Quantity) or name.split(".")[0] in op.skip_units:
            return q
        unit = equivalent_unit(q.unit, rng)
        changes.append(unit != q.unit)
        return q.to(unit)

    def byteorder(name, q):
        a, unit = plain(q)
        if np.ndim(a) == 0 or a.dtype.kind not in "fi":
            return q
        changes.append(True)
        return with_unit(np.array(a, dtype=a.dtype.newbyteorder(">")), unit)

    def strided(name, q):
        a, unit = plain(q)
        if np.ndim(a) == 0:
            return q
        changes.append(True)
        shape = tuple(2 * n for n in a.shape)
        order = "CF"[rng.integers(2)]
        big = np.full(shape, 77, dtype=a.dtype, order=order)
        view = big[tuple(slice(None, None, 2 if rng.random() < 0.7 else -2) for _ in shape)]
        view[...] = a
        return with_unit(view, unit)

    def readonly(name, q):
        a, unit = plain(q)
        if np.ndim(a) == 0:
            return q
        changes.append(True)
        a = np.array(a)
        a.flags.writeable = False
        return with_unit(a, unit)

    def angle(name, q):
        if isinstance(q, u.Quantity) and q.unit.physical_type == "angle":
            changes.append(True)
            if name.endswith("_az") and rng.random() < 0.5 and np.all((q >= 0 * u.deg) & (q < 360 * u.deg)):
                return Longitude(q)
            if name.endswith("_alt") and rng.random() < 0.5:
                return Latitude(q)
            return Angle(q)
        return q

    funcs = dict(units=units, byteorder=byteorder, strided=strided, readonly=readonly, angle=angle)
    out = {}
    if kind in funcs:
        for k, v in inputs.items():
            new = map_inputs(v, funcs[kind], k)
            if isinstance(v, Table) and kind == "strided":
                # adding columns copies these: a slice of a table has strided columns
                idx = np.repeat(np.arange(len(v)), 2)
                new = v[idx][::2]
            if isinstance(v, Table) and kind == "readonly":
                for c in new.colnames:
                    if isinstance(new[c], np.ndarray):
                        new[c].setflags(write=False)
            out[k] = new
    elif kind == "rows":
        out = dict(inputs)
        if op.joint:
            perm = rng.permutation(len(inputs[op.joint[0]]))
            for k in op.joint:
                out[k] = inputs[k][perm]
            changes.append(True)
        for k in op.permute:
            if isinstance(inputs.get(k), Table):
                perm = rng.permutation(len(inputs[k]))
                out[k] = inputs[k][perm]
                changes.append(True)
    elif kind == "columns":
        out = dict(inputs)
        for k, v in inputs.items():
            # cuts are compared with all of their columns
            if isinstance(v, Table) and op.name != "compare cuts":
                new = QTable()
                new["additional"] = rng.uniform(0, 1, len(v)) * u.TeV
                for c in rng.permutation(v.colnames):
                    new[str(c)] = v[c]
                # names which are created by the library
                for c in ("weighted", "n_weighted", "bin_index", "center", "x"):
                    if c not in new.colnames:
                        new[c] = rng.uniform(0, 1, len(v))
                # a table which is grouped, has an index or is of a derived class
                what = rng.integers(4)
                if what == 0:
                    new["group"] = np.arange(len(new)) // 7
                    new = new.group_by("group")
                elif what == 1:
                    new["row"] = np.arange(len(new))
                    new.add_index("row")
                elif what == 2:
                    new = EventTable(new)
                new.meta["EXTNAME"] = "EVENTS"
                new.meta["low"] = 3
                out[k] = new
                changes.append(True)
    return out, perm, sum(changes)


def si(a, unit):
    if unit is None or unit == u.dimensionless_unscaled:
        return a, u.dimensionless_unscaled
    if a.dtype.kind not in "fiu":
        return a, unit
    q = u.Quantity(a.astype(float), unit)
    # angles are kept, decomposed: rad
    q = q.si
    return q.value, q.unit


@st.composite
def op_case(draw, kinds=TRANSFORMS):
    name = draw(st.sampled_from(sorted(ops.OPS)))
    return dict(op=name, seed=draw(st.integers(0, 10**6)), kind=draw(st.sampled_from(kinds)), tseed=draw(st.integers(0, 10**6)))


def flat(out):
    return [x for x in ops.flatten(dict(out=out)) if not x[0].endswith(".header") and not x[0].endswith(".columns")]


NORMALISED = ("energy dispersion estimator", "psf estimator", "dispersion to migration", "bias from dispersion")


def integers(op, inputs, rng):
    """inputs with integer numbers, stored as floating point numbers and as integers"""
    places = []
    for k, v in inputs.items():
        if isinstance(v, Table):
            places += [(k, c) for c in v.colnames if v[c].dtype.kind == "f"]
        elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
            places.append((k, None))
        elif type(v).__module__.startswith("pyirf"):
            places += [(k, c) for c in type(v).__slots__ if isinstance(getattr(v, c), u.Quantity)]
    out = [{k: v.copy() if isinstance(v, Table) else v for k, v in inputs.items()} for _ in range(2)]
    dtypes = ["i8", "i8", ">i8", "i4", "u4", "i2", "u1"]
    n = 0
    for place in places:
        k, c = place
        # normalised distributions are no integers
        if rng.random() < 0.5 or (op.name in NORMALISED and k in ("d", "p")):
            continue
        v = inputs[k]
        a, unit = plain(v if c is None else v[c] if isinstance(v, Table) else getattr(v, c))
        scale = 1
        if unit is not None and unit != u.dimensionless_unscaled:
            # a unit with large numbers, or not
            for group in ops.EQUIVALENT:
                if unit.is_equivalent(u.Unit(group[0])) and rng.random() < 0.7 and place[0] not in op.skip_units:
                    new = min(group, key=lambda x: u.Unit(x).to(group[0]))
                    if np.max(np.abs(a), initial=0) * unit.to(new) < 2e9:
                        a, unit = a * unit.to(new), u.Unit(new)
        elif rng.random() < 0.5:
            scale = 100
        edges = a.ndim == 1 and c is None and np.all(np.diff(a) > 0)
        a = np.round(np.asarray(a, float) * scale)
        if not np.all(np.abs(a) < 2e9) or (edges and not np.all(np.diff(a) > 0)):
            continue
        # products of quantities (differences of edges) are out of the range of short (unsigned) integers
        dtype = dtypes[rng.integers(3 if unit is not None or edges else len(dtypes))]
        limits = np.iinfo(dtype)
        if np.any(a < limits.min) or np.any(a > limits.max):
            dtype = "i8"
        for o_, b in zip(out, (a, a.astype(dtype))):
            b = b if unit is None else u.Quantity(b, unit, dtype=b.dtype)
            if c is None:
                o_[k] = b
            elif isinstance(v, Table):
                o_[k][c] = b
            else:
                o_[k] = type(v)(**{x: b if x == c else getattr(o_[k], x) for x in type(v).__slots__})
        n += 1
    return out, n


def integer(case):
    op = ops.OPS[case["op"]]
    inputs, call = op.make(np.random.default_rng(case["seed"]))
    (a, b), n = integers(op, inputs, np.random.default_rng(case["tseed"]))
    try:
        expected = flat(call(**a))
    except Exception as e:  # rounding to integers made the input invalid, the kind of error is not specified
        raise Skip from e
    result = flat(call(**b))
    what = f"{op.name} with integers"
    o.check([x[0] for x in expected] == [x[0] for x in result],
            f"{what}: results {[x[0] for x in result]} instead of {[x[0] for x in expected]}")
    content = False
    for (name, x, ux), (_, y, uy) in zip(expected, result):
        o.check(x.shape == y.shape, f"{what}: {name} has shape {y.shape} instead of {x.shape}")
        x, ux = si(x, ux)
        y, uy = si(y, uy)
        o.check(ux == uy, f"{what}: {name} has unit {uy} instead of {ux}")
        if x.dtype.kind not in "fiu":
            o.check(np.array_equal(x, y), f"{what}: {name} is {y} instead of {x}")
            continue
        x, y = x.astype(float), y.astype(float)
        finite = np.isfinite(x)
        content |= bool(np.any(x[finite] != 0))
        o.close(y, x, f"{what}: {name}", rtol=op.rtol, atol=1e-10 * np.max(np.abs(x[finite]), initial=0))
    return ["integers"], n > 0 and content


# documented as plain numbers, some of them fail for quantities (rad max tables: if they have fill values)
PLAIN = {("optimize cuts", "gh"), ("optimize cuts", "th"), ("optimize gh cut", "eff"), ("relative sensitivity", "n_on"),
         ("relative sensitivity", "n_off"), ("rad max estimator", "r"), ("bias from dispersion", "d"),
         ("bias from dispersion", "migra"), ("dispersion to migration", "d"), ("dispersion to migration", "migra")}


def dimensionless(case):
    """plain numbers as quantities without unit (as read from files) or with a scaled one (percent)"""
    op = ops.OPS[case["op"]]
    inputs, call = op.make(np.random.default_rng(case["seed"]))
    rng = np.random.default_rng(case["tseed"])
    if op.name in ("optimize gh cut", "sensitivity"):
        # without rounding, which decides if there is any excess
        units = [u.one, u.Unit(0.0078125), u.Unit(0.25)]
    else:
        # only powers of ten can be written to FITS files
        units = [u.one, u.percent, u.Unit(1e-3), u.Unit("m/cm")]
    new = {k: v.copy() if isinstance(v, Table) else v for k, v in inputs.items()}
    n = 0
    for k, v in inputs.items():
        columns = v.colnames if isinstance(v, Table) else [None]
        for c in columns:
            a = v if c is None else v[c]
            if not isinstance(a, np.ndarray) or isinstance(a, u.Quantity) or a.dtype.kind != "f" or not a.ndim:
                continue
            if rng.random() < 0.3 or (op.name, k) in PLAIN or k in ("pts", "target"):
                continue
            unit = units[rng.integers(len(units))]
            b = u.Quantity(np.asarray(a) / unit.to(u.one), unit)
            if c is None:
                new[k] = b
            else:
                new[k][c] = b
            n += 1
    if not n:
        raise Skip
    expected = flat(call(**inputs))
    result = flat(call(**new))
    what = f"{op.name} with dimensionless quantities"
    o.check([x[0] for x in expected] == [x[0] for x in result],
            f"{what}: results {[x[0] for x in result]} instead of {[x[0] for x in expected]}")
    content = False
    for (name, x, ux), (_, y, uy) in zip(expected, result):
        o.check(x.shape == y.shape, f"{what}: {name} has shape {y.shape} instead of {x.shape}")
        x, ux = si(x, ux)
        y, uy = si(y, uy)
        if uy.is_equivalent(u.one):
            y, uy = y * uy.to(u.one) if y.dtype.kind in "fiu" else y, u.one
        o.check(ux == uy, f"{what}: {name} has unit {uy} instead of {ux}")
        if x.dtype.kind not in "fiu":
            o.check(np.array_equal(x, y), f"{what}: {name} is {y} instead of {x}")
            continue
        x, y = x.astype(float), y.astype(float)
        finite = np.isfinite(x)
        content |= bool(np.any(x[finite] != 0))
        o.close(y, x, f"{what}: {name}", rtol=op.rtol, atol=1e-10 * np.max(np.abs(x[finite]), initial=0))
    return ["dimensionless"], content


def representation(case):
    op = ops.OPS[case["op"]]
    kind = case["kind"]
    inputs, call = op.make(np.random.default_rng(case["seed"]))
    if kind in ("units",) and not op.units:
        kind = "byteorder"
    new, perm, changes = transform(kind, op, inputs, np.random.default_rng(case["tseed"]))
    expected = flat(call(**inputs))
    result = flat(call(**new))
    what = f"{op.name}, {kind}"
    o.check([x[0] for x in expected] == [x[0] for x in result],
            f"{what}: results {[x[0] for x in result]} instead of {[x[0] for x in expected]}")
    content = False
    for (name, a, ua), (_, b, ub) in zip(expected, result):
        if op.per_event and perm is not None and a.ndim and a.shape[0] == len(perm):
            a = a[perm]
        o.check(a.shape == b.shape, f"{what}: {name} has shape {b.shape} instead of {a.shape}")
        a, ua = si(a, ua)
        b, ub = si(b, ub)
        o.check(ua == ub, f"{what}: {name} has unit {ub} instead of {ua}")
        if a.dtype.kind not in "fiu":
            o.check(np.array_equal(a, b), f"{what}: {name} is {b} instead of {a}")
            continue
        o.check(a.dtype.kind == b.dtype.kind, f"{what}: {name} has dtype {b.dtype} instead of {a.dtype}")
        a, b = a.astype(float), b.astype(float)
        finite = np.isfinite(a)
        content |= bool(np.any(a[finite] != 0))
        scale = np.max(np.abs(a[finite]), initial=0)
        o.close(b, a, f"{what}: {name}", rtol=op.rtol, atol=1e-10 * scale)
    return [case["kind"]], changes > 0 and content


SUBS = [
    Sub("units", op_case(kinds=["units"]), representation, 700, 20000, shards=4),
    Sub("memory", op_case(kinds=["byteorder", "strided", "readonly"]), representation, 700, 15000, shards=4),
    Sub("tables", op_case(kinds=["rows", "columns", "angle"]), representation, 700, 15000, shards=4),
    Sub("integers", op_case(kinds=["integers"]), integer, 700, 15000, shards=4),
    Sub("dimensionless", op_case(kinds=["dimensionless"]), dimensionless, 500, 10000, shards=4),
]
