"""Grids of templates: random points in one to three dimensions, targets inside, on and
outside of them, and brute force geometry (no triangulation library)"""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip

TOL = 1e-9


def integer_type(draw, x):
    """any type which can store all of the (integer) values"""
    dtypes = [t for t in ("i1", "u1", "u2", "u4", "i2", "i4", "i8") if np.iinfo(t).min <= np.min(x) and np.max(x) <= np.iinfo(t).max]
    return draw(st.sampled_from(["f8"] + dtypes))


@st.composite
def grid(draw, dims=(1, 2), n_max=7):
    """json: kind, points (list of lists), dtype, flat (1d grids as 1d array)"""
    dim = draw(st.sampled_from(list(dims)))
    if dim == 1:
        n = gen.count(draw, 2, n_max, 40)
        # distinct values with a minimum distance
        w = np.array(gen.fractions(draw, n)) + 0.1
        x = np.cumsum(w)
        scale = draw(st.sampled_from([1.0, 30.0, 0.01, 1000.0]))
        start = draw(st.sampled_from([0.0, -1.0, 20.0]))
        x = start + x / x[-1] * scale
        as_int = draw(st.booleans())
        if as_int:
            x = np.arange(n) * draw(st.integers(1, 20)) + draw(st.integers(-20, 20))
        order = draw(st.permutations(range(n)))
        if gen.rare(draw, 3):
            order = sorted(order)
        points = [[float(x[i])] for i in order]
        return dict(dim=1, kind="1d", points=points, flat=draw(st.booleans()),
                    dtype=integer_type(draw, x) if as_int else "f8")
    scale = [draw(st.sampled_from([1.0, 1.0, 10.0, 90.0])) for _ in range(dim)]
    start = [draw(st.sampled_from([0.0, -1.0, 20.0])) for _ in range(dim)]
    kind = draw(st.sampled_from(["general", "general", "product", "simplex", "jittered", "corners"]))
    if kind == "corners":
        # facets which are parallel to the axes only up to rounding
        corners = np.array(list(itertools.product(*[(0.0, 1.0)] * dim)))
        extra = 0.2 + 0.6 * np.array(gen.fractions(draw, dim * draw(st.integers(0, 2)))).reshape(-1, dim)
        pts = np.concatenate([corners, extra])
        pts = np.array(start) + pts * np.array(scale) + 0.1
        noise = np.array(gen.ints(draw, pts.size, -2, 2)).reshape(pts.shape)
        pts = pts * (1 + noise * 2.0**-52)
        return dict(dim=dim, kind=kind, points=[[float(x) for x in p] for p in pts], flat=False, dtype="f8")
    if kind in ("product", "jittered"):
        axes = []
        for d in range(dim):
            n = gen.count(draw, 2, 3, 7 if dim == 2 else 4)
            w = np.array(gen.fractions(draw, n - 1)) + 0.3
            e = np.append(0, np.cumsum(w))
            if draw(st.booleans()):
                e = np.arange(n, dtype=float)
            axes.append(e / e[-1])
        pts = np.array(list(itertools.product(*axes)))
        if kind == "jittered":
            pts = pts + 0.1 * (np.array(gen.fractions(draw, pts.size)).reshape(pts.shape) - 0.5)
    else:
        n = dim + 1 if kind == "simplex" else gen.count(draw, dim + 1, max(n_max, dim + 2), 25)
        pts = np.array(gen.fractions(draw, n * dim)).reshape(n, dim)
    pts = pts[draw(st.permutations(range(len(pts))))]
    pts = np.array(start) + pts * np.array(scale)
    if kind in ("general", "product") and gen.rare(draw, 4):
        # integers, with enough digits to keep the geometry
        pts = np.round(pts / np.ptp(pts, axis=0) * draw(st.sampled_from([12, 100, 20000] if kind == "product" else [1000, 20000])))
        if len(np.unique(pts, axis=0)) == len(pts):
            return dict(dim=dim, kind=kind, points=[[float(x) for x in p] for p in pts], flat=False, dtype=integer_type(draw, pts))
    pts = [[float(f"{x:.9g}") for x in p] for p in pts]
    return dict(dim=dim, kind=kind, points=pts, flat=False, dtype="f8")


def array(g):
    a = np.array(g["points"], dtype=g["dtype"])
    if g["dim"] == 1 and g["flat"]:
        return a[:, 0]
    return a


@st.composite
def target(draw, g, where=("inside", "point", "outside")):
    """a point relative to the grid: convex combination, grid point, outside of the hull"""
    pts = np.array(g["points"])
    n, dim = pts.shape
    kind = draw(st.sampled_from(list(where)))
    if kind == "point":
        k = draw(st.integers(0, n - 1))
        if gen.rare(draw, 2):
            k = int(np.argmax(pts[:, 0]))
        return [float(x) for x in pts[k]]
    if kind == "edge":
        # on the line between two points
        i, j = draw(st.permutations(range(n)))[:2]
        f = draw(st.sampled_from([0.5, 0.25, 0.75]))
        return [float(x) for x in pts[i] + f * (pts[j] - pts[i])]
    f = np.array(gen.fractions(draw, n)) + 1e-3
    if kind == "inside":
        f = f ** draw(st.sampled_from([1, 3, 8]))
        f /= f.sum()
        return [float(f"{x:.9g}") for x in f @ pts]
    center, size = pts.mean(axis=0), np.ptp(pts, axis=0)
    if gen.rare(draw, 4):
        # slightly outside, close to the last point in one direction
        d = 2 * np.array(gen.fractions(draw, dim)) - 1
        d = d / np.linalg.norm(d) if dim > 1 else np.sign(d)
        k = int(np.argmax(pts @ (d / size)))
        return [float(f"{x:.12g}") for x in pts[k] + draw(st.sampled_from([1e-2, 1e-4, 1e-6])) * d * size]
    if dim == 2 and n > 2 and gen.rare(draw, 3):
        # beside a facet of the hull, mostly close to one of its ends
        facets = [(i, j) for i, j in itertools.permutations(range(n), 2)
                  if np.all((pts[j] - pts[i])[0] * (pts - pts[i])[:, 1] <= (pts[j] - pts[i])[1] * (pts - pts[i])[:, 0])]
        if facets:
            i, j = draw(st.sampled_from(facets))
            line = pts[j] - pts[i]
            t = gen.floats(draw, 1, 2e-3, 0.5, log=True)[0]
            h = gen.floats(draw, 1, 1e-3, 10, log=True)[0]
            if draw(st.booleans()):
                t = 1 - t
            return [float(f"{x:.12g}") for x in pts[i] + t * line + h * np.array([-line[1], line[0]])]
    far = draw(st.sampled_from([0.7, 1.0, 2.0, 5.0]))
    d = 2 * np.array(gen.fractions(draw, dim)) - 1
    d = d / max(np.abs(d).max(), 1e-6)
    if gen.rare(draw, 3):
        # only outside along one of the axes
        d[:] = 0
        d[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([-1, 1]))
    return [float(f"{x:.9g}") for x in center + far * d * size]


class Plane:
    """Brute force geometry of points in two dimensions. Independent of the scale of the axes
    only where noted: the empty circle criterion uses the coordinates as they are."""

    def __init__(self, points):
        self.p = np.array(points, dtype=float)
        self.n = len(self.p)
        self.scale = np.ptp(self.p, axis=0).max()
        self.inner = self.p.mean(axis=0)

    def cross(self, a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    def degenerate(self):
        """three points (almost) on a line which is not parallel to an axis, or too close points"""
        for i, j, k in itertools.combinations(range(self.n), 3):
            a, b, c = self.p[[i, j, k]]
            area = abs(self.cross(a, b, c))
            size = max(np.linalg.norm(a - b), np.linalg.norm(b - c), np.linalg.norm(a - c))
            aligned = np.ptp(self.p[[i, j, k], 0]) == 0 or np.ptp(self.p[[i, j, k], 1]) == 0
            if not aligned and area < 1e-4 * size**2:
                return True
        for i, j in itertools.combinations(range(self.n), 2):
            if np.linalg.norm(self.p[i] - self.p[j]) < 1e-3 * self.scale:
                return True
        return False

    def facets(self):
        """pairs of points which are neighbours on the convex hull"""
        out = []
        for i, j in itertools.combinations(range(self.n), 2):
            a, b = self.p[i], self.p[j]
            side = [self.cross(a, b, self.p[k]) for k in range(self.n) if k not in (i, j)]
            tol = TOL * self.scale**2
            if not (all(s >= -tol for s in side) or all(s <= tol for s in side)):
                continue
            between = False
            for k in range(self.n):
                if k in (i, j) or abs(self.cross(a, b, self.p[k])) > tol:
                    continue
                f = np.dot(self.p[k] - a, b - a) / np.dot(b - a, b - a)
                between |= 0 < f < 1
            if not between:
                out.append((i, j))
        return out

    def outside_distance(self, t):
        """> 0 if outside of the hull, relative to the size"""
        worst = -np.inf
        for i, j in self.facets():
            a, b = self.p[i], self.p[j]
            s = self.cross(a, b, t) * -np.sign(self.cross(a, b, self.inner))
            worst = max(worst, s / np.linalg.norm(b - a) / self.scale)
        return worst

    def triangles(self):
        """all triangles without another point inside of their circumcircle: the Delaunay
        triangulation, or, if it is not unique, all the triangles which can be part of it"""
        out = []
        for t in itertools.combinations(range(self.n), 3):
            a, b, c = self.p[list(t)]
            area = self.cross(a, b, c)
            if abs(area) < 1e-9 * self.scale**2:
                continue
            empty = True
            for k in range(self.n):
                if k in t:
                    continue
                d = self.p[k]
                m = np.array([[*(q - d), np.dot(q - d, q - d)] for q in (a, b, c)])
                det = np.linalg.det(m) * np.sign(area)
                if det > TOL * self.scale**4:
                    empty = False
                    break
            if empty:
                out.append(t)
        return out

    def barycentric(self, tri, t):
        m = np.vstack([self.p[list(tri)].T, np.ones(3)])
        return np.linalg.solve(m, np.array([t[0], t[1], 1.0]))

    def containing(self, t, tol=1e-9):
        """candidates (triangle, coefficients) for the interpolation at t"""
        out = []
        for tri in self.triangles():
            c = self.barycentric(tri, t)
            if c.min() >= -tol:
                out.append((tri, c))
        return out

    def attached(self, facet, t):
        """candidates (triangle, coefficients) for the extrapolation over a facet"""
        return [(tri, self.barycentric(tri, t)) for tri in self.triangles() if set(facet) <= set(tri)]

    def segment_distance(self, facet, t):
        a, b = self.p[list(facet)]
        f = np.clip(np.dot(t - a, b - a) / np.dot(b - a, b - a), 0, 1)
        return np.linalg.norm(a + f * (b - a) - t)

    def angle(self, facet, t):
        a, b = self.p[list(facet)] - t
        return np.arctan2(abs(a[0] * b[1] - a[1] * b[0]), a @ b)

    def nearest_facets(self, t):
        """The nearest facet(s); if a corner is nearest the one with the larger angle"""
        fac = self.facets()
        d = np.array([self.segment_distance(f, t) for f in fac])
        # feet of perpendiculars within 1e-8 of a corner count as the corner
        tol = max(1e-9 * d.min(), 1e-13 * self.scale, (2e-8 * self.scale) ** 2 / max(d.min(), 1e-9 * self.scale))
        near = [f for f, x in zip(fac, d) if x <= d.min() + tol]
        ang = np.array([self.angle(f, t) for f in near])
        out = [f for f, x in zip(near, ang) if x >= ang.max() - 1e-5]
        if d.min() < 1e-4 * self.scale:
            # next to a corner the library takes points up to 1e-5 beyond it as part of the facet,
            # both facets have (almost) the same extrapolation there
            out += [f for f, x in zip(fac, d) if f not in out and x <= d.min() + 2e-5 * self.scale]
        return out

    def visible_facets(self, t):
        """facets seen from t, None if that is not clear"""
        out = []
        for f in self.facets():
            a, b = self.p[list(f)]
            s = self.cross(a, b, t) * -np.sign(self.cross(a, b, self.inner))
            s /= np.linalg.norm(b - a) * self.scale
            if abs(s) < 1e-9:
                return None
            if s > 0:
                out.append(f)
        return out


def values(case_values, shape):
    return np.array(case_values, dtype=float).reshape(shape)


def weights(g, t):
    """candidates of (templates, coefficients) for linear in- or extrapolation, and inside / outside"""
    t = np.array(t, dtype=float)
    pts = np.array(g["points"])
    if g["dim"] == 1:
        x = pts[:, 0]
        order = np.argsort(x)
        xs = x[order]
        if t[0] < xs[0]:
            k, where = 0, "outside"
        elif t[0] > xs[-1]:
            k, where = len(xs) - 2, "outside"
        else:
            k, where = min(np.searchsorted(xs, t[0], side="right"), len(xs) - 1) - 1, "inside"
        f = (t[0] - xs[k]) / (xs[k + 1] - xs[k])
        out = [((order[k], order[k + 1]), np.array([1 - f, f]))]
        if f == 0 and k > 0:
            # part of both intervals, which matters if the other template is empty
            out.append(((order[k - 1], order[k]), np.array([0.0, 1.0])))
        return out, where
    plane = Plane(pts)
    if plane.degenerate():
        raise Skip
    d = plane.outside_distance(t)
    point = any((p == t).all() for p in pts)
    if abs(d) < 1e-9 and not (point and g["kind"] == "product"):
        raise Skip
    if d < 0 or point:
        return plane.containing(t), "inside"
    return [c for f in plane.nearest_facets(t) for c in plane.attached(f, t)], "outside"


def flat(g):
    """four points of a 3d grid (almost) in a plane which is not part of its construction, or a corner"""
    pts = np.array(g["points"])
    size = np.ptp(pts, axis=0)
    if not size.all():
        return True
    p = pts / size
    if g["kind"] in ("product", "corners"):
        return any(np.diff(np.unique(np.round(p[:, k], 9))).min() < 1e-3 for k in range(p.shape[1]))
    return any(abs(np.linalg.det(p[list(c[1:])] - p[c[0]])) < 2e-3 for c in itertools.combinations(range(len(p)), 4))


def position(g, t):
    """inside / outside, None if rounding decides"""
    pts = np.array(g["points"])
    t = np.array(t)
    if g["kind"] in ("1d", "product") and any((p == t).all() for p in pts):
        return "inside"
    if g["dim"] == 1:
        return "inside" if pts.min() <= t[0] <= pts.max() else "outside"
    if g["kind"] == "product":
        inside = np.all(t >= pts.min(axis=0)) and np.all(t <= pts.max(axis=0))
        return "inside" if inside else "outside"
    if g["dim"] == 2:
        plane = Plane(pts)
        if plane.degenerate():
            return None
        d = plane.outside_distance(t)
        return None if abs(d) < 1e-9 else "outside" if d > 0 else "inside"
    # 3d: convex combination, or clearly outside of one plane
    scale = np.ptp(pts, axis=0)
    p, x = pts / scale, t / scale
    worst = -np.inf
    for f in itertools.combinations(range(len(p)), 3):
        normal = np.cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[0]])
        size = np.linalg.norm(normal)
        if size < 1e-3:
            if size > 1e-12:
                return None
            continue
        s = (p - p[f[0]]) @ (normal / size)
        if s.max() > 1e-9 and s.min() < -1e-9:
            continue
        sign = 1 if s.max() > 1e-9 else -1
        worst = max(worst, -sign * ((x - p[f[0]]) @ (normal / size)))
    return None if abs(worst) < 1e-6 else "outside" if worst > 0 else "inside"
