"""Answers do not depend on how a shape is written down (C30)."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo, scenes
from ..core import Check
from ..obs import G, O, NAMED, Polygon, StarshapedPolygon, mm
from ..scenes import sh

POSE = [None, [[2., -1.], .7], [[-30., 12.5], 0.]]
WHICH = ("ccw", "rolls", "cw", "mid", "many", "closed", "dup")
STAR = {"tri": [(0, 0), (3, 0), (1, 2)], "box": [(0, 0), (2, 0), (2, 1), (0, 1)], "penta": [(0, 0), (3, 0), (4, 2), (2, 4), (-1, 2)],
        **{k: NAMED[k] for k in ("L", "arrow", "star4", "plus")}}
XR = {"tri": (1.3, .6), "box": (.7, .45), "penta": (1.9, 1.4), "L": (.52, .47), "arrow": (2.1, 2.6), "star4": (1.9, 2.05), "plus": (1.45, 1.6)}


def forms(v):
    """(name, constructor argument) for one point set."""
    out = [("list %d" % i, [tuple(map(float, q)) for q in p]) for i, p in enumerate(geo.presentations([tuple(q) for q in v], WHICH))]
    f = np.array(v, float)
    out += [("array", f), ("reversed view", f[::-1]), ("fortran", np.asfortranarray(f)), ("ints", [list(map(int, q)) for q in v]), ("int array", np.array(v, int)),
            ("float32", f.astype(np.float32)), ("shapely", sg.Polygon(f)), ("shapely cw", shapely.geometry.polygon.orient(sg.Polygon(f), -1.)),
            ("shapely moved start", sg.Polygon(np.roll(f, 2, axis=0))), ("ring", sg.LinearRing(f)), ("negative zeros", np.where(f == 0, -0., f)),
            ("parsed", shapely.from_wkt(sg.Polygon(f).wkt))]
    return out


def same(a, b, tol=1e-5):
    if a is None or b is None or isinstance(a, (bool, np.bool_, str)):
        return a is b or a == b
    if isinstance(a, shapely.Geometry):
        return geo.differ(a, b) < tol
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, atol=max(1e-6, tol / 10), rtol=tol / 1e4)


def unique(pts):
    out = []
    for p in sorted(tuple(np.round(q, 6) + 0.) for q in pts):
        if not out or np.hypot(p[0] - out[-1][0], p[1] - out[-1][1]) > 1e-5:
            out.append(p)
    return out


def queries(v, pose):
    b = sg.Polygon(v).bounds
    w = max(b[2] - b[0], b[3] - b[1])
    loc = [np.array([b[0] + (i + .377) * w / 4, b[1] + (j + .213) * w / 4]) for i, j in itertools.product(range(-2, 6), repeat=2)]
    return loc if pose is None else [geo.to_global(p, pose) for p in loc]


class Presentation(Check):
    ID = "C30"
    RULE = ("named polygons and every k-th lattice polygon as Polygon and, with a given reference point, as StarshapedPolygon x poses x every presentation (start vertex, "
            "orientation, redundant collinear vertices, repeated vertices, closing vertex; list, array, integers, shapely geometry): every query on a grid of points, the "
            "dilated shape, the admissible kernel and the starshaped hull compared with those of the plain presentation; queries by equal points given as other array types; "
            "number types of poses, velocities and lengths; scenes with presented obstacles")
    ASSUMPTIONS = ("query points are in general position",)

    def cases(self, tier):
        out = [["poly", k, pi] for k in sorted(NAMED) for pi in range(len(POSE))]
        out += [["star", k, pi] for k in sorted(STAR) for pi in range(len(POSE))]
        lat = geo.polys("quick")
        lat = [p[1] if isinstance(p[0], str) else p for p in lat]
        out += [["lat", [list(q) for q in p], i % len(POSE)] for i, p in enumerate(lat) if i % (18 if tier == "quick" else 1) == 0]
        out += [["scene", c[0], c[1], c[2], i] for i, c in enumerate(scenes.scene_cases(tier)) if i % (40 if tier == "quick" else 8) == 0 and set(c[0]) - {"c", "e"}]
        out += [["types", k] for k in ("ell", "poly", "star")]
        return [c + [int(tier == "thorough")] if c[0] in ("poly", "star", "lat") else c for c in out]

    def answers(self, o, v, pose, star, hulls):
        out = [("convex", bool(o.is_convex())), ("starshaped", bool(o.is_starshaped())), ("area", o.area())]
        for f in (G, O):
            out.append(("polygon", sg.Polygon(o.polygon(f))))
        out.append(("extreme points", bool(sg.MultiPoint(o.extreme_points()).convex_hull.symmetric_difference(sg.Polygon(o.polygon()).convex_hull).area < 1e-6)))
        qs = queries(v, pose)
        for i, q in enumerate(qs):
            out.append(("location", float(np.sign(o.point_location(q)))))
            out.append(("sides", [bool(o.interior_point(q)), bool(o.exterior_point(q)), bool(o.boundary_point(q))]))
            out.append(("tangents", o.tangent_points(q)))
            out.append(("line", unique(o.line_intersection([q, qs[(7 * i + 3) % len(qs)]]))))
            if star:
                out.append(("mapping", o.boundary_mapping(q)))
                out.append(("direction", o.reference_direction(q)))
                out.append(("distance", o.distance_function(q)))
                out.append(("normal", o.normal(q)))
        if star:
            out.append(("xr", o.xr()))
            out.append(("kernel", o.kernel()))
        out.append(("dilated", o.dilated_obstacle(.2, id="temp").polygon()) if star else ("-", 0.))
        if hulls:
            for i, q in enumerate(qs[::3]):
                k = sh.admissible_kernel(o, q)
                out.append(("admissible", None if k is None else k.polygon().intersection(sg.box(-60, -60, 60, 60)) if k else None))
                t = np.array([q, q + [.11, .02], q + [.03, .1]])
                out.append(("hull", sh.kernel_starshaped_hull(o, t)))
                out.append(("hull list", sh.kernel_starshaped_hull([o], t)))
        return out

    def run(self, case, r):
        if case[0] == "scene":
            return self.scene(case, r)
        if case[0] == "types":
            return self.types(case[1], r)
        kind, shape, pi, _ = case
        v = [tuple(q) for q in (STAR[shape] if kind == "star" else NAMED[shape] if kind == "poly" else shape)]
        pose = POSE[pi]
        step = 1 if case[3] else 5
        star = kind == "star"

        def make(form):
            m = None if pose is None else mm.Static(list(pose[0]), pose[1])
            return StarshapedPolygon(form, xr=np.array(XR[shape]), motion_model=m) if star else Polygon(form, motion_model=m)

        ok, base = r.call(lambda: self.answers(make([list(map(float, q)) for q in v]), v, pose, star, True), sub="plain")
        if not ok:
            return
        r.expect(dict((a[0], a[1]) for a in base if a[0] == "extreme points")["extreme points"], "extreme-points", "plain", "they do not span the convex hull of the shape")
        for n, (name, form) in enumerate(forms(v)):
            if step > 1 and name.startswith("list") and (n + pi) % step:
                continue
            keep = form.copy() if isinstance(form, np.ndarray) else list(form) if isinstance(form, list) else form.wkb
            ok, got = r.call(lambda: self.answers(make(form), v, pose, star, n % 4 == pi or (step == 1 and kind != "lat")), sub=name)
            r.expect(np.array_equal(form, keep) if not isinstance(keep, bytes) else form.wkb == keep, "argument-changed", name, "")
            if not ok:
                continue
            for i, (a, b) in enumerate(zip(base, got)):
                r.expect(a[0] == b[0] and same(a[1], b[1], 1e-3 if a[0] == "dilated" else 1e-5), a[0], [name, i], lambda: "%s, plain presentation: %s" % (str(b[1])[:200], str(a[1])[:200]))
            r.outcome(name.split()[0])

    def scene(self, case, r):
        _, letters, pos, rots, salt = case
        args = list(zip(letters, pos, rots))
        refs = [scenes.reference(*a) for a in args]
        xs, gs = scenes.points(refs)
        pairs = [(x, g) for x in xs for g in gs if x != g]

        def obstacle(a, k):
            kind, d = scenes.SHAPES[a[0]]
            if kind == "ell":
                return scenes.build(*a)
            ps = [p for _, p in forms([tuple(q) for q in d]) if not isinstance(p, np.ndarray) or p.dtype.kind == "f" and p.dtype.itemsize == 8]
            ps = [p for p in ps if not isinstance(p, list) or all(isinstance(t, tuple) for t in p)]
            ps = [p for p in ps if not isinstance(p, list) or not any(0 < np.hypot(*np.subtract(u, w)) < 1e-9 for u, w in zip(p, p[1:] + p[:1]))]
            return (StarshapedPolygon if kind == "star" else Polygon)(ps[k % len(ps)], motion_model=mm.Static(list(a[1]), a[2]))

        def solve(obs, x, g):
            np.random.seed(0)
            res = sh.cluster_and_starify(obs, x, g, .2)
            idx = {id(q): i for i, q in enumerate(obs)}
            return res[2], {tuple(sorted(idx[id(q)] for q in c.obstacles)): (c.cluster_obstacle.polygon() if res[2] else None, c.kernel_points) for c in res[0]}

        for n, (x, g) in enumerate(pairs[salt % 5::5][:3]):
            x, g = np.array(x, float), np.array(g, float)
            ok, base = r.call(solve, [scenes.build(*a) for a in args], x, g, sub=[n])
            if not ok:
                continue
            if base[0] and any(np.hypot(*(k[0] - k[1])) < 1e-6 or abs(np.linalg.det([g - x, np.mean(k, axis=0) - x])) < 1e-3 for _, k in base[1].values()):
                continue
            for k in range(salt % 7, 70, 7):
                sub = [n, k]
                ok, got = r.call(lambda: solve([obstacle(a, k + 11 * i) for i, a in enumerate(args)], x, g), sub=sub)
                if not ok:
                    continue
                r.add("executions")
                if not r.expect(got[0] == base[0] and sorted(got[1]) == sorted(base[1]), "scene", sub, lambda: "%s expected %s" % ((got[0], sorted(got[1])), (base[0], sorted(base[1])))):
                    continue
                if base[0]:
                    for key in base[1]:
                        r.expect(same(base[1][key][0], got[1][key][0]), "scene-geometry", sub, lambda: "cluster %s: area %g expected %g" % (key, got[1][key][0].area, base[1][key][0].area))
            r.outcome("scene flag %d" % base[0])

    def types(self, kind, r):
        """Numbers of other types, and points in other containers, give the same answers."""
        from ..obs import Ellipse
        v = NAMED["arrow"]

        def make(num, arr):
            m = mm.Static(arr([2, -1]), num(1))
            if kind == "ell":
                return Ellipse(arr([2, 1]), motion_model=m)
            return (Polygon if kind == "poly" else StarshapedPolygon)(arr([arr(q) for q in v]), motion_model=m)

        pts = [np.array([i, j]) for i in range(-3, 6) for j in range(-4, 5) if (i, j) != (2, -1)]

        def ask(o, cast):
            out = []
            for i, p in enumerate(pts):
                q, w = cast(p), cast(pts[i - 7])
                out.append(("location", float(np.sign(o.point_location(q)))))
                out.append(("tangents", o.tangent_points(q)))
                out.append(("line", unique(o.line_intersection([q, w]))))
                if hasattr(o, "xr"):
                    out.append(("mapping", o.boundary_mapping(q)))
                    out.append(("normal", o.normal(q)))
                    out.append(("distance", o.distance_function(q)))
                    out.append(("direction", o.reference_direction(q)))
                out.append(("frame", o.transform(q, G, O)))
                out.append(("frame", o.transform(q, O, G)))
            out.append(("polygon", o.polygon()))
            return out

        ok, base = r.call(lambda: ask(make(float, lambda q: [float(t) if not isinstance(t, list) else t for t in q]), lambda p: p.astype(float)), sub="plain")
        if not ok:
            return
        for nn, num in (("int", int), ("float", float), ("np.float64", np.float64), ("np.int64", np.int64), ("np.float32", np.float32)):
            for an, arr in (("list", list), ("tuple", tuple), ("array", np.array)):
                for cn, cast in (("float", lambda p: p.astype(float)), ("int", lambda p: p), ("float32", lambda p: p.astype(np.float32)), ("view", lambda p: np.array([p[0], 0., p[1]])[::2])):
                    sub = [nn, an, cn]
                    ok, got = r.call(lambda: ask(make(num, arr), cast), sub=sub)
                    if not ok:
                        continue
                    for i, (a, b) in enumerate(zip(base, got)):
                        r.expect(a[0] == b[0] and same(a[1], b[1], 1e-3 if "float32" in cn + nn else 1e-5), "type " + a[0], sub + [i], lambda: "%s, with floats: %s" % (str(b[1])[:200], str(a[1])[:200]))
        r.outcome("types")


CHECKS = [Presentation()]
