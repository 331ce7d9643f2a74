import numpy as np
from astropy.table import QTable
from astropy.coordinates import Latitude, Longitude
import astropy.units as u
from hypothesis import strategies as st

from harness import events as ev, gen, oracle as o
from harness.core import Sub
from pyirf.coordinates import gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi
from pyirf.utils import (
    calculate_source_fov_lonlat, calculate_source_fov_offset, calculate_source_fov_position_angle,
    calculate_theta,
)

RULE = (
    "sky positions all over the sphere, close to each other, at the poles, at azimuth 0 / 360 and"
    " negative azimuths, opposite points, for any unit, dtype and number of events, compared to"
    " vector arithmetic; non-trivial: any separation larger than 1e-6 degrees"
)


@st.composite
def case_strategy(draw):
    n = draw(st.sampled_from([1, 3, 8, 30, 0]))
    az = gen.floats(draw, n, -180, 540, [0.0, 360.0, 180.0, -180.0, 90.0])
    alt = gen.floats(draw, n, -90, 90, [90.0, -90.0, 0.0, 89.99999, 70.0])
    if gen.rare(draw, 3):
        # runs with the same or few different pointing directions in one or both coordinates
        constant = draw(st.integers(0, 3))
        alt = alt[:1] * n if constant in (1, 3) else gen.weights(draw, n, -90, 90, [90.0, 70.0])
        az = az[:1] * n if constant in (2, 3) else gen.weights(draw, n, -180, 540, [0.0, 180.0])
    positions = {}
    for k, name in enumerate(("true", "reco")):
        kind = draw(st.sampled_from(["close", "close", "far", "mixed"]))
        far_az = gen.floats(draw, n, -180, 540, [0.0, 360.0])
        far_alt = gen.floats(draw, n, -90, 90, [90.0, -90.0])
        size = draw(st.sampled_from([0.01, 1.0, 5.0]))
        d_az, d_alt = gen.floats(draw, n, -size, size, [0.0]), gen.floats(draw, n, -size, size, [0.0])
        a, b = [], []
        for i in range(n):
            if kind == "far" or (kind == "mixed" and i % 2):
                a.append(far_az[i])
                b.append(far_alt[i])
            else:
                a.append(az[i] + d_az[i] / max(np.cos(np.deg2rad(alt[i])), 0.01))
                b.append(min(max(alt[i] + d_alt[i], -90.0), 90.0))
        # sometimes other side of the 360 degree boundary
        shift = draw(st.sampled_from([0.0, 0.0, 360.0, -360.0]))
        positions[name] = [[x + shift for x in a], b]
    return dict(
        az=az, alt=alt, **positions, units=[gen.unit(draw, ["deg", "rad", "arcmin"]) for _ in range(6)],
        prefix=draw(st.sampled_from(["true", "reco", "default"])),
        dtype=draw(st.sampled_from(["f8", "f8", "f8", "f4"])),
        cls=draw(st.sampled_from(["quantity", "quantity", "angle"])),
        source=[draw(st.sampled_from([0.0, 83.6, 359.9, -10.0])), draw(st.sampled_from([0.0, 70.0, 90.0, -35.0]))],
        bulk=ev.tile(draw, n), turn=draw(st.sampled_from([360.0, -360.0, 720.0])), rot=draw(st.sampled_from([10.0, 123.456, 200.0])),
    )


def vectors(p_az, p_alt, az, alt):
    """separation, and field of view coordinates in radian"""
    p_az, p_alt, az, alt = [np.deg2rad(np.asarray(x, float)) for x in (p_az, p_alt, az, alt)]
    v = o.unit_vector(az, alt)
    p = o.unit_vector(p_az, p_alt)
    # directions of increasing azimuth and of increasing altitude
    east = np.stack([-np.sin(p_az), np.cos(p_az), 0 * p_az], -1)
    north = np.stack([-np.sin(p_alt) * np.cos(p_az), -np.sin(p_alt) * np.sin(p_az), np.cos(p_alt)], -1)
    x, y, z = [np.sum(v * e, axis=-1) for e in (p, east, north)]
    theta = np.arctan2(np.hypot(y, z), x)
    lon = -np.arctan2(y, x)
    lat = np.arctan2(z, np.hypot(x, y))
    phi = np.mod(-np.arctan2(y, z), 2 * np.pi)
    return theta, phi, lon, lat


def angle(values, unit, cls, kind, dtype):
    q = gen.q(values, "deg", unit)
    if kind == "lat":
        # not above 90 degree after a conversion of the unit
        limit = 90 * u.deg if dtype == "f8" else 89.999 * u.deg
        q = np.clip(q, -limit, limit) if unit == "rad" or dtype == "f4" else q
    q = u.Quantity(q, dtype=dtype)
    if cls == "angle":
        return Longitude(q) if kind == "lon" else Latitude(q)
    return q


def same_angle(got, expected, what, weight, tol=2e-9):
    """compare angles modulo 360 degrees, weighted with their lever arm"""
    got = o.value(got, "rad", what)
    o.shape_is(got, np.shape(expected), what)
    d = np.mod(got - expected + np.pi, 2 * np.pi) - np.pi
    bad = ~(np.abs(d) * weight <= tol)
    if np.any(bad):
        i = int(np.argwhere(bad.reshape(-1))[0][0])
        o.fail(f"{what}: got {np.ravel(got)[i]} rad, expected {np.ravel(expected)[i]} rad")


def deg(q):
    return np.asarray(u.Quantity(q, dtype="f8").to_value("deg"))


def coordinates(case):
    for k in ("az", "alt"):
        case[k] = ev.expand(case[k], case["bulk"])
    for k in ("true", "reco"):
        case[k] = [ev.expand(x, case["bulk"]) for x in case[k]]
    n = len(case["az"])
    us, cls = case["units"], case["cls"]
    t = QTable()
    t["pointing_az"] = angle(case["az"], us[0], cls, "lon", case["dtype"])
    t["pointing_alt"] = angle(case["alt"], us[1], cls, "lat", case["dtype"])
    for k, name in enumerate(("true", "reco")):
        t[f"{name}_az"] = angle(case[name][0], us[2 + 2 * k], cls, "lon", case["dtype"])
        t[f"{name}_alt"] = angle(case[name][1], us[3 + 2 * k], cls, "lat", case["dtype"])
    tol = 2e-9 if case["dtype"] == "f8" else 5e-6
    before = t.copy()
    prefix = "true" if case["prefix"] == "default" else case["prefix"]
    kwargs = {} if case["prefix"] == "default" else dict(prefix=prefix)
    p_az, p_alt = deg(t["pointing_az"]), deg(t["pointing_alt"])
    az, alt = deg(t[f"{prefix}_az"]), deg(t[f"{prefix}_alt"])
    theta, phi, lon, lat = vectors(p_az, p_alt, az, alt)

    off = calculate_source_fov_offset(t, **kwargs)
    o.check(str(off.unit) == "deg", f"unit of the offset is {off.unit}")
    o.close(off, theta, "offset", unit="rad", rtol=1e-9, atol=tol)
    weight = np.sin(theta)
    pa = calculate_source_fov_position_angle(t, **kwargs)
    o.check(str(pa.unit) == "deg", f"unit of the position angle is {pa.unit}")
    same_angle(pa, phi, "position angle", weight, tol)
    flon, flat = calculate_source_fov_lonlat(t, **kwargs)
    o.check(str(flon.unit) == "deg" and str(flat.unit) == "deg", "unit of lon / lat")
    check_ranges(off, pa, flon, flat)
    same_angle(flon, lon, "fov longitude", np.cos(lat), tol)
    o.close(flat, lat, "fov latitude", unit="rad", atol=tol)

    # the same functions for single positions and arrays
    call = [t[f"{prefix}_az"], t[f"{prefix}_alt"], t["pointing_az"], t["pointing_alt"]]
    th2, phi2 = gadf_fov_coords_theta_phi(*call)
    lon2, lat2 = gadf_fov_coords_lon_lat(*call)
    o.close(th2, theta, "theta", unit="rad", atol=tol)
    same_angle(phi2, phi, "phi", weight, tol)
    same_angle(lon2, lon, "lon", np.cos(lat), tol)
    o.close(lat2, lat, "lat", unit="rad", atol=tol)
    check_ranges(th2, phi2, lon2, lat2)
    if n:
        one = [x[0] for x in call]
        th3, phi3 = gadf_fov_coords_theta_phi(*one)
        lon3, lat3 = gadf_fov_coords_lon_lat(*one)
        o.close(th3, theta[0], "theta of one position", unit="rad", atol=tol)
        same_angle(phi3, phi[0], "phi of one position", weight[0], tol)
        same_angle(lon3, lon[0], "lon of one position", np.cos(lat[0]), tol)
        o.close(lat3, lat[0], "lat of one position", unit="rad", atol=tol)
        # one pointing for all
        th4, phi4 = gadf_fov_coords_theta_phi(call[0], call[1], call[2][0], call[3][0])
        lon4, lat4 = gadf_fov_coords_lon_lat(call[0], call[1], call[2][0], call[3][0])
        ref = vectors(p_az[0], p_alt[0], az, alt)
        o.close(th4, ref[0], "theta for one pointing", unit="rad", atol=tol)
        same_angle(phi4, ref[1], "phi for one pointing", np.sin(ref[0]), tol)
        same_angle(lon4, ref[2], "lon for one pointing", np.cos(ref[3]), tol)
        o.close(lat4, ref[3], "lat for one pointing", unit="rad", atol=tol)
    # theta to an assumed source position
    s_az, s_alt = gen.q(case["source"][0], "deg", us[0]), gen.q(case["source"][1], "deg", us[1])
    got = calculate_theta(t, s_az, s_alt)
    o.check(str(got.unit) == "deg", f"unit of theta is {got.unit}")
    exp = vectors(s_az.to_value("deg"), s_alt.to_value("deg"), deg(t["reco_az"]), deg(t["reco_alt"]))
    o.close(got, exp[0], "theta", unit="rad", atol=tol)
    # the source position of each event
    got = calculate_theta(t, t["true_az"], t["true_alt"])
    exp = vectors(deg(t["true_az"]), deg(t["true_alt"]),
                  deg(t["reco_az"]), deg(t["reco_alt"]))
    o.close(got, exp[0], "theta to the true position", unit="rad", atol=tol)
    for k in before.colnames:
        o.same(t[k].value, before[k].value, f"column {k} after the call")

    # full turns of one azimuth, rotation of both
    for turn_p, turn_t, what in ((0, case["turn"], "full turn"), (case["rot"], case["rot"], "rotation")):
        r = QTable()
        r["pointing_az"] = (p_az + turn_p) * u.deg
        r["pointing_alt"] = p_alt * u.deg
        r[f"{prefix}_az"] = (az + turn_t) * u.deg
        r[f"{prefix}_alt"] = alt * u.deg
        o.close(calculate_source_fov_offset(r, prefix=prefix), theta, f"offset after {what}", unit="rad", atol=2e-9)
        same_angle(calculate_source_fov_position_angle(r, prefix=prefix), phi, f"position angle after {what}", weight)
        rlon, rlat = calculate_source_fov_lonlat(r, prefix=prefix)
        same_angle(rlon, lon, f"lon after {what}", np.cos(lat))
        o.close(rlat, lat, f"lat after {what}", unit="rad", atol=2e-9)
    labels = [case["prefix"], case["dtype"]]
    if np.any(np.abs(p_alt) == 90):
        labels.append("pointing at a pole")
    if np.any(np.abs(az - p_az) > 180):
        labels.append("across azimuth 0")
    if np.any(theta > np.pi / 2):
        labels.append("more than 90 degrees")
    if np.any(theta == 0):
        labels.append("same position")
    if not n:
        labels.append("empty")
    return labels, bool(np.any(theta > 1e-6))


def check_ranges(theta, phi, lon, lat):
    eps = 1e-9
    th, ph, lo, la = [np.asarray(o.value(x, "deg", "angle")) for x in (theta, phi, lon, lat)]
    o.check(np.all((th >= 0) & (th <= 180 + eps)), f"theta not in [0, 180]: {th}")
    o.check(np.all((ph >= 0) & (ph <= 360)), f"phi not in [0, 360]: {ph}")
    o.check(np.all((lo >= -180 - eps) & (lo <= 180 + eps)), f"lon not in [-180, 180]: {lo}")
    o.check(np.all((la >= -90 - eps) & (la <= 90 + eps)), f"lat not in [-90, 90]: {la}")


SUBS = [Sub("coordinates", case_strategy(), coordinates, 1000, 20000, shards=8)]
