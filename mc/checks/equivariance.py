"""Answers follow the scene when the coordinate system or the unit of length changes (C31)."""
import itertools

import numpy as np
import shapely
import shapely.affinity as sa
import shapely.geometry as sg

from .. import geo, scenes
from ..core import Check
from ..obs import AXES, G, NAMED, Ellipse, Polygon, StarshapedPolygon, mm
from ..scenes import sh
from .presentation import STAR, XR, queries, unique

POSE = [([0., 0.], 0.), ([2., -1.], .7), ([-30., 12.5], -2.3)]


def turn(phi):
    return np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])


class T:
    """p -> s * Rot(phi) * Mirror p + t"""

    def __init__(self, s=1., phi=0., mirror=False, t=(0., 0.), off=(0., 0.)):
        self.off = np.array(off)  # moves the origin of the obstacle's own frame
        self.s, self.phi, self.mirror, self.t = s, phi, mirror, np.array(t)
        c, d = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][phi] if isinstance(phi, int) else (np.cos(phi), np.sin(phi))
        self.phi = phi * np.pi / 2 if isinstance(phi, int) else phi
        self.L = np.array([[c, -d], [d, c]]) @ np.diag([1., -1. if mirror else 1.])

    def __call__(self, p):
        return self.s * (np.asarray(p, float) @ self.L.T) + self.t

    def direction(self, d):
        return np.asarray(d, float) @ self.L.T

    def local(self, v):
        return [[self.s * q[0] + self.off[0], (-self.s if self.mirror else self.s) * q[1] + self.off[1]] for q in v]

    def pose(self, pos, rot):
        rot = (-rot if self.mirror else rot) + self.phi
        return [float(q) for q in self(pos) - turn(rot) @ self.off], rot

    def shape(self, g):
        m = self.s * self.L
        return sa.affine_transform(g, [m[0, 0], m[0, 1], m[1, 0], m[1, 1], *self.t])

    def __repr__(self):
        return "scale %g, turn %.3g, mirror %d, move %s, own origin %s" % (self.s, self.phi, self.mirror, self.t.tolist(), (-self.off).tolist())


ID = T()
UNITS = [T(2.), T(.25), T(64.), T(1024.), T(10.), T(.3)]
MOVES = [T(1., 1), T(1., 2), T(1., 3), T(1., .9), T(1., -2.2, False, (7., -3.)), T(1., 0, False, (512., -256.)), T(1., 0, False, (-3000., .5)), T(8., 0, False, (100., 3.))]
MIRRORS = [T(1., 0, True), T(1., 1, True), T(2., .4, True, (3., 1.))]
OWN = [T(off=(-40., -25.)), T(off=(-3.5, 2.)), T(off=(600., -350.))]
ALL = UNITS + MOVES + MIRRORS + OWN


def same(a, b, s):
    """Are two answers about scenes of unit s the same?"""
    if a is None or b is None or isinstance(a, (bool, np.bool_, str)):
        return a is b or a == b
    if isinstance(a, shapely.Geometry):
        return a.is_empty and b.is_empty or geo.differ(sa.scale(a, 1 / s, 1 / s, origin=(0, 0)), sa.scale(b, 1 / s, 1 / s, origin=(0, 0))) < 1e-5
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a / s, b / s, atol=1e-6, rtol=1e-8)


def build(kind, d, t, pos, rot, xr=None):
    p, r = t.pose(pos, rot) if kind != "ell" else T(t.s, t.phi, t.mirror, t.t).pose(pos, rot)
    m = mm.Static(p, r)
    if kind == "ell":
        return Ellipse([t.s * a for a in d], motion_model=m)
    if kind == "star":
        return StarshapedPolygon(t.local(d), xr=None if xr is None else np.array(t.local([xr])[0]), motion_model=m)
    return Polygon(t.local(d), motion_model=m)


class Equivariance(Check):
    ID = "C31"
    RULE = ("obstacles of every type x poses x every change of coordinates of a list (units of length from 1/4 to 1024, quarter and general turns, translations, mirror images, other origins of the obstacle's own frame): every query on a grid "
            "of points, the dilated shape, admissible kernel and starshaped hull, and scenes of up to 3 obstacles: partition, flag, cluster geometry and kernel points")
    ASSUMPTIONS = ("query points are in general position", "scenes with touching hulls or tiny kernel triangles are not compared", "units between 1/4 and 1024 times the size of the shapes of the list")

    def cases(self, tier):
        deep = int(tier == "thorough")
        out = [["poly", k, pi, deep] for k in sorted(NAMED) for pi in range(len(POSE))]
        out += [["star", k, pi, deep] for k in sorted(STAR) for pi in range(len(POSE))]
        out += [["ell", list(a), pi, deep] for a in AXES for pi in range(len(POSE))]
        lat = [p[1] if isinstance(p[0], str) else p for p in geo.polys("quick")]
        out += [["lat", [list(q) for q in p], i % len(POSE), deep] for i, p in enumerate(lat) if i % (9 if tier == "quick" else 2) == 0]
        out += [["scene", c[0], c[1], c[2], i] for i, c in enumerate(scenes.scene_cases(tier)) if i % (2 if tier == "quick" else 1) == 0]
        return out

    def answers(self, o, t, qs, star, hulls, ell):
        """(kind of answer, value in the coordinates of the unchanged scene)"""
        back = np.linalg.inv(t.s * t.L)
        pt = lambda p: None if p is None else back @ (np.asarray(p) - t.t)
        m = [back[0, 0], back[0, 1], back[1, 0], back[1, 1], *(-back @ t.t)]
        shp = lambda g: None if g is None else sa.affine_transform(g, m)
        dr = lambda d: None if d is None else t.L.T @ np.asarray(d)
        order = slice(None, None, -1) if t.mirror else slice(None)
        out = [("convex", bool(o.is_convex())), ("starshaped", bool(o.is_starshaped())), ("polygon", shp(sg.Polygon(o.polygon()))),
               ("extreme points", bool(sg.MultiPoint(o.extreme_points()).convex_hull.symmetric_difference(sg.Polygon(o.polygon()).convex_hull).area < 1e-6 * t.s ** 2)), ("pos", pt(o.pos() + (turn(o.rot()) @ t.off if not ell else 0.)))]
        if not ell:
            out.append(("area", o.area() / t.s ** 2))
        for i, q0 in enumerate(qs):
            q = t(q0)
            out.append(("location", float(np.sign(o.point_location(q)))))
            out.append(("sides", [bool(o.interior_point(q)), bool(o.exterior_point(q)), bool(o.boundary_point(q))]))
            tp = o.tangent_points(q)
            out.append(("tangents", [pt(p) for p in tp][order] if tp else []))
            out.append(("line", unique([pt(p) for p in o.line_intersection([q, t(qs[(7 * i + 3) % len(qs)])])])))
            if star:
                out.append(("mapping", pt(o.boundary_mapping(q))))
                out.append(("direction", dr(o.reference_direction(q))))
                d = o.distance_function(q)
                out.append(("distance", d if d < 1 or ell else 1 + (np.sqrt(d) - 1) / t.s))
                out.append(("normal", dr(o.normal(q))))
        if star:
            out.append(("xr", pt(o.xr())))
            if not ell:
                out.append(("kernel", shp(o.kernel())))
            out.append(("dilated", shp(o.dilated_obstacle(.2 * t.s, id="temp").polygon())))
        if hulls:
            box = t.shape(sg.box(-60, -60, 60, 60))
            for i, q0 in enumerate(qs[::3]):
                k = sh.admissible_kernel(o, t(q0))
                out.append(("admissible", shp(k.polygon().intersection(box)) if k else None))
                tr = np.array([t(q0), t(q0 + [.11, .02]), t(q0 + [.03, .1])])
                out.append(("hull", shp(sh.kernel_starshaped_hull(o, tr))))
                out.append(("hull list", shp(sh.kernel_starshaped_hull([o], tr))))
        return out

    def run(self, case, r):
        if case[0] == "scene":
            return self.scene(case, r)
        kind, shape, pi, deep = case
        star = kind in ("star", "ell")
        v = STAR[shape] if kind == "star" else NAMED[shape] if kind == "poly" else shape
        xr = XR[shape] if kind == "star" else None
        pos, rot = POSE[pi]
        kd = "poly" if kind == "lat" else kind
        qs = queries(geo.ellipse_ring(v, 16) if kind == "ell" else [tuple(q) for q in v], [pos, rot])
        ask = lambda t: self.answers(build(kd, v, t, pos, rot, xr), t, qs, star, deep or kind != "lat", kind == "ell")
        ok, base = r.call(ask, ID, sub="unchanged")
        if not ok:
            return
        r.expect(dict(base[:5])["extreme points"], "extreme-points", "unchanged", "they do not span the convex hull of the shape")
        for n, t in enumerate(ALL):
            if kind == "ell" and t.off.any():
                continue
            ok, got = r.call(ask, t, sub=n)
            if not ok:
                continue
            for i, (a, b) in enumerate(zip(base, got)):
                if kind == "ell" and t.s != 1 and a[0] in ("polygon", "dilated"):
                    continue
                r.expect(a[0] == b[0] and same(a[1], b[1], 1.), a[0], [n, i], lambda: "%s: %s, expected %s" % (t, str(b[1])[:200], str(a[1])[:200]))
            r.expect(len(base) == len(got), "answers", n, "%d answers, expected %d" % (len(got), len(base)))
            r.outcome("%s %s" % (kind, "unit" if t in UNITS else "mirror" if t.mirror else "move"))

    def scene(self, case, r):
        _, letters, pos, rots, salt = case
        args = [(*scenes.SHAPES[l], p, q) for l, p, q in zip(letters, pos, rots)]
        refs = [scenes.reference(*a) for a in zip(letters, pos, rots)]
        xs, gs = scenes.points(refs)
        pairs = [(x, g) for x in xs for g in gs if x != g]

        def solve(t, x, g):
            obs = [build(a[0], a[1], t, a[2], a[3]) for a in args]
            np.random.seed(0)
            res = sh.cluster_and_starify(obs, t(x), t(g), .2 * t.s)
            idx = {id(q): i for i, q in enumerate(obs)}
            m = np.linalg.inv(t.s * t.L)
            back = lambda p: sa.affine_transform(p, [m[0, 0], m[0, 1], m[1, 0], m[1, 1], *(-m @ t.t)])
            return res[2], {tuple(sorted(idx[id(q)] for q in c.obstacles)): (back(c.cluster_obstacle.polygon()) if res[2] else None, (np.asarray(c.kernel_points) - t.t) @ m.T if res[2] else None)
                            for c in res[0]}

        for n, (x, g) in enumerate(pairs[salt % 5::5][:3]):
            x, g = np.array(x, float), np.array(g, float)
            ok, base = r.call(solve, ID, x, g, sub=[n])
            if not ok:
                continue
            if base[0] and any(np.hypot(*(k[0] - k[1])) < 1e-2 or abs(np.linalg.det([g - x, np.mean(k, axis=0) - x])) < 1e-3 for _, k in base[1].values()):
                continue
            if base[0] and any(0 <= a[0].distance(b[0]) < 1e-6 for a, b in itertools.combinations(base[1].values(), 2)):
                continue                      # touching hulls
            for k, t in enumerate(ALL):
                sub = [n, k]
                if not np.array_equal(t.L, np.eye(2)):
                    continue                  # the kernel triangle is aligned with the axes
                if t.s != 1 and set(letters) & set("ce"):
                    continue                  # the polygon of an ellipse is enlarged by a fixed length
                ok, got = r.call(solve, t, x, g, sub=sub)
                if not ok:
                    continue
                r.add("executions")
                if not r.expect(got[0] == base[0] and sorted(got[1]) == sorted(base[1]), "scene", sub, lambda: "%s: %s expected %s" % (t, (got[0], sorted(got[1])), (base[0], sorted(base[1])))):
                    continue
                if base[0]:
                    for key in base[1]:
                        r.expect(same(base[1][key][0], got[1][key][0], 1.), "scene-geometry", sub, lambda: "%s: cluster %s: area %g expected %g, kernel points %s expected %s" % (
                            t, key, got[1][key][0].area, base[1][key][0].area, np.round(got[1][key][1], 4).tolist(), np.round(base[1][key][1], 4).tolist()))
            r.outcome("scene flag %d" % base[0])


CHECKS = [Equivariance()]
