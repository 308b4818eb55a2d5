"""Finite input alphabets (lattice polygons, poses, query grids) and independent oracles.

Everything here is written from the definitions (exact integer/rational arithmetic where possible) and shares no
code with the repository under test.
"""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg


# ---------------------------------------------------------------------------------------------- exact predicates
def orient(a, b, c):
    """> 0 iff a,b,c is counter-clockwise."""
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_segment(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and \
        min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def sgn(v):
    return int(v > 0) - int(v < 0)


def segments_meet(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if sgn(o1) * sgn(o2) < 0 and sgn(o3) * sgn(o4) < 0:
        return True
    return on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a) or on_segment(c, d, b)


def exact_location(poly, p):
    """-1 inside, 0 boundary, 1 outside (exact for ints/Fractions; poly a vertex list)."""
    n = len(poly)
    inside = False
    for i in range(n):
        a, b = poly[i - 1], poly[i]
        if on_segment(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                inside = not inside
    return -1 if inside else 1


def is_convex_exact(poly):
    n = len(poly)
    s = [sgn(orient(poly[i - 2], poly[i - 1], poly[i])) for i in range(n)]
    return not (1 in s and -1 in s)


def halfplane_clip(poly, a, b):
    """Clip convex polygon `poly` (ccw, Fractions) with the closed half plane left of a->b."""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i - 1], poly[i]
        op, oq = orient(a, b, p), orient(a, b, q)
        if (op >= 0) != (oq >= 0):
            t = Fraction(op) / (op - oq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if oq >= 0:
            out.append(q)
    return out


def kernel_exact(poly):
    """Exact kernel of a ccw simple polygon as a list of points ([] if empty); may be degenerate."""
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    k = [(Fraction(min(xs)) - 1, Fraction(min(ys)) - 1), (Fraction(max(xs)) + 1, Fraction(min(ys)) - 1),
         (Fraction(max(xs)) + 1, Fraction(max(ys)) + 1), (Fraction(min(xs)) - 1, Fraction(max(ys)) + 1)]
    for i in range(len(poly)):
        k = halfplane_clip(k, poly[i - 1], poly[i])
        if not k:
            return []
    out = []
    for p in k:
        if not out or p != out[-1]:
            out.append(p)
    if len(out) > 1 and out[0] == out[-1]:
        out.pop()
    return out


def area_exact(poly):
    return sum(poly[i - 1][0] * poly[i][1] - poly[i][0] * poly[i - 1][1] for i in range(len(poly))) / Fraction(2)


def signed_area(poly):
    return 0.5 * sum(poly[i - 1][0] * poly[i][1] - poly[i][0] * poly[i - 1][1] for i in range(len(poly)))


# ---------------------------------------------------------------------------------------------- alphabets
@functools.lru_cache(maxsize=None)
def lattice_polygons(w, h, nmax):
    """All simple polygons (ccw, strict vertices only) with 3..nmax vertices on a w x h integer lattice."""
    pts = sorted((x, y) for x in range(w) for y in range(h))
    out = []

    def ext(path, used):
        n = len(path)
        if n >= 3:
            a, b = path[-1], path[0]
            ok = not any(segments_meet(a, b, path[i], path[i + 1]) for i in range(1, n - 2))
            if ok and orient(path[-2], path[-1], path[0]) != 0 and orient(path[-1], path[0], path[1]) != 0 \
                    and signed_area(path) > 0:
                out.append(tuple(path))
        if n == nmax:
            return
        for p in pts:
            if p in used or p < path[0]:
                continue
            if n >= 2:
                if orient(path[-2], path[-1], p) == 0:
                    continue
                if any(segments_meet(path[-1], p, path[i], path[i + 1]) for i in range(n - 2)):
                    continue
            ext(path + [p], used | {p})

    for s in pts:
        ext([s], {s})
    return out


def polys(tier):
    if tier == "quick":
        return lattice_polygons(3, 3, 9)
    return lattice_polygons(3, 3, 9) + [p for p in lattice_polygons(4, 3, 6)
                                        if max(v[0] for v in p) == 3] + \
        [p for p in lattice_polygons(4, 4, 5) if max(v[0] for v in p) == 3 and max(v[1] for v in p) == 3]


def star_polys(tier, min_area=Fraction(1, 1000)):
    """(polygon, kernel) for every polygon of the alphabet with a kernel of positive area."""
    return [(p, k) for p, k in ((p, kernel_exact(p)) for p in polys(tier)) if len(k) > 2 and area_exact(k) > min_area]


def presentations(poly, which):
    """Different ways to hand the same point set to a constructor: start vertex, orientation, redundant vertices."""
    p = list(poly)
    n = len(p)
    out = []
    if "ccw" in which:
        out.append(p)
    if "rolls" in which:
        out += [p[i:] + p[:i] for i in range(1, n)]
    if "cw" in which:
        out.append(p[::-1])
    if "mid" in which:           # a redundant collinear vertex on every edge
        q = []
        for i in range(n):
            q += [p[i], ((p[i][0] + p[(i + 1) % n][0]) / 2, (p[i][1] + p[(i + 1) % n][1]) / 2)]
        out += [q, q[1:] + q[:1]]
    if "many" in which:          # many collinear vertices on one edge, with every one of them as start vertex
        for i in (0, n // 2):
            a, b = p[i], p[(i + 1) % n]
            for m in (2, 4, 7):
                q = p[:i + 1] + [(a[0] + (b[0] - a[0]) * k / 8, a[1] + (b[1] - a[1]) * k / 8) for k in range(1, m + 1)] + p[i + 1:]
                out += [q[j:] + q[:j] for j in range(i, i + m + 2)] + [(q[i + 1:] + q[:i + 1])[::-1]]
    if "closed" in which:
        out.append(p + [p[0]])
    if "dup" in which or "dup-exact" in which:           # a vertex given twice (exactly and up to rounding), with every start vertex
        for i in range(n):
            for e in (0, 2e-16, -3e-13) if "dup" in which else (0,):
                q = p[:i + 1] + [(p[i][0] + e * (p[(i + 1) % n][0] - p[i][0]), p[i][1] + e * (p[(i + 1) % n][1] - p[i][1]))] + p[i + 1:]
                q = q if e else [(float(a), float(b)) for a, b in q]
                if e < 0:        # on the incoming edge
                    q = p[:i] + [(p[i][0] - e * (p[i - 1][0] - p[i][0]), p[i][1] - e * (p[i - 1][1] - p[i][1]))] + p[i:]
                j = i if e else (i + 1) % n
                out += [q, (q[j:] + q[:j])[::-1]]
        out.append([x for q in p for x in (q, q)])
        out.append([x for q in p for x in (q, q, q)])
    return out


POSES = [None, [[0., 0.], 0.], [[2., -1.], 0.], [[-1., 3.], math.pi / 2], [[.5, .25], -2.], [[3., 1.], math.pi]]


def to_global(p, pose):
    if pose is None:
        return np.array(p, float)
    (tx, ty), r = pose
    c, s = math.cos(r), math.sin(r)
    return np.array([c * p[0] - s * p[1] + tx, s * p[0] + c * p[1] + ty])


def to_local(p, pose):
    if pose is None:
        return np.array(p, float)
    (tx, ty), r = pose
    c, s = math.cos(r), math.sin(r)
    dx, dy = p[0] - tx, p[1] - ty
    return np.array([c * dx + s * dy, -s * dx + c * dy])


def rot_vec(v, pose, inverse=False):
    if pose is None:
        return np.array(v, float)
    c, s = math.cos(pose[1]), math.sin(pose[1])
    if inverse:
        s = -s
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def pose_polygon(coords, pose):
    return sg.Polygon([to_global(p, pose) for p in coords])


def grid(x0, x1, y0, y1, n):
    """Rational grid with step 1/n."""
    return [(Fraction(i, n), Fraction(j, n)) for i in range(x0 * n, x1 * n + 1) for j in range(y0 * n, y1 * n + 1)]


# ---------------------------------------------------------------------------------------------- float oracles
def union(parts, check=False):
    """shapely.union_all made robust: GEOS occasionally fails on slivers or (check=True) silently drops a part."""
    parts = [p for p in parts if not p.is_empty]
    for f in (lambda: shapely.union_all(parts),
              lambda: shapely.union_all(parts[::-1]),
              lambda: shapely.union_all(parts, grid_size=1e-9),
              lambda: shapely.union_all([shapely.set_precision(p.buffer(0), 1e-8) for p in parts], grid_size=1e-8)):
        try:
            u = f()
            if not check or all(p.difference(u).area < 1e-7 for p in parts):
                return u
        except shapely.errors.GEOSException:
            pass
    u = sg.Polygon()
    for p in parts:
        u = u.union(p.buffer(1e-9))
    return u


def star_hull(pol, kernel, check=False):
    """Smallest set containing shapely polygon `pol` that is starshaped w.r.t. every point of conv(kernel)."""
    parts = [pol]
    K = [tuple(k) for k in np.asarray(kernel, float).reshape(-1, 2)]
    if pol.convex_hull.area - pol.area < 1e-12:
        return sg.MultiPoint(list(pol.exterior.coords) + K).convex_hull
    for ring in [pol.exterior]:
        c = list(ring.coords)
        for a, b in zip(c[:-1], c[1:]):
            parts.append(sg.MultiPoint([a, b] + K).convex_hull)
    parts = [p for p in parts if p.geom_type == "Polygon" and p.area > 1e-12]
    u = union(parts, check)
    if u.geom_type == "Polygon":
        u = sg.Polygon(u.exterior)
    return u


def star_excess(poly, k):
    """The part of the fan from k to poly's boundary that leaves poly (empty iff poly is starshaped w.r.t. k)."""
    c = np.array(poly.exterior.coords)
    fan = []
    for i in range(len(c) - 1):
        if abs((c[i][0] - k[0]) * (c[i + 1][1] - k[1]) - (c[i][1] - k[1]) * (c[i + 1][0] - k[0])) > 1e-12:
            fan.append(sg.Polygon([k, c[i], c[i + 1]]))
    return union(fan)


def star_ok(poly, k, tol=0.02):
    """Every point of poly is joined to k by a segment that stays within tol of poly."""
    if poly.geom_type != "Polygon":
        return False, "geometry is %s" % poly.geom_type
    big = [r for r in poly.interiors if sg.Polygon(r).area > tol * tol]
    if big:
        return False, "polygon has a hole of area %g" % sg.Polygon(big[0]).area
    out = star_excess(poly, np.asarray(k, float)).difference(poly.buffer(tol))
    if out.area < 1e-6:
        return True, ""
    return False, "segments from %s leave it (area %.4g beyond %g)" % (np.round(k, 4).tolist(), out.area, tol)


def ellipse_ring(a, n=400, scale=1.):
    t = np.linspace(0, 2 * np.pi, n, endpoint=False)
    return np.vstack((scale * a[0] * np.cos(t), scale * a[1] * np.sin(t))).T


def differ(a, b):
    """Area of the symmetric difference; the overlay of almost coincident rings can fail in GEOS, hence the second look."""
    d = a.symmetric_difference(b).area
    if d > 1e-9 and not a.is_empty and not b.is_empty and a.geom_type == b.geom_type == "Polygon" and not len(a.interiors) and not len(b.interiors) \
            and a.exterior.hausdorff_distance(b.exterior) < 1e-9 * (1 + max(map(abs, a.bounds))) and abs(a.area - b.area) < 1e-9:
        return 0.
    return d
