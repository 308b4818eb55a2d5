"""Dilated obstacles (C20)."""
import itertools
import math

import numpy as np
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import NAMED, AXES, G, O, Polygon, StarshapedPolygon, poly, ell, fl, mm
from .lifecycle import vector, differ
from .obstacle_star import close, conv, kernel_points, ray_hit, rotv, star_cases
from .obstacle_points import poly_cases

POSES = geo.POSES
BEFORE = ["none", "polygon", "all", "moved", "declared"]


def ring_dist(v, p):
    """Distance of p to the solid polygon v (0 inside)."""
    if geo.exact_location(v, p) <= 0:
        return 0.
    best = math.inf
    for i in range(len(v)):
        a, b = np.array(v[i - 1], float), np.array(v[i], float)
        t = min(1., max(0., (p - a).dot(b - a) / (b - a).dot(b - a)))
        best = min(best, np.hypot(*(p - a - t * (b - a))))
    return best


class Dilation(Check):
    ID = "C20"
    RULE = ("starshaped lattice and named polygons (as StarshapedPolygon and, with all other simple lattice polygons, as Polygon) and ellipses x radii "
            "(.01, .3, 1.5, and .3 applied to a .2-dilation) x poses x what happened to the original before (nothing, polygon queried, all queries, moved); "
            "membership of the dilated obstacle compared with the distance to the original on a grid, all queries with the grown shape, before and after moving it")
    ASSUMPTIONS = ("arcs may be approximated to 1 % of the radius", "kernels of dilated non-convex polygons are not claimed",
                   "an ellipse is dilated by adding the radius to its axes", "cavities closed by the dilation are not claimed for lines")

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        R = [[.3], [1.5], [.01], [.2, .3], [0.]]
        for i, v in enumerate(star_cases(tier, 1 if t else 3)):
            for j in (range(5) if t else (i % 5, (i + 2) % 5)):
                out.append(["star", v, (i + j) % 6, R[j], BEFORE[(i // 5 + j) % 4]])
        pc = [p for n, p in poly_cases("quick")]
        for i, v in enumerate(pc[::1 if t else 8]):
            out.append(["poly", [list(q) for q in v], i % 6, R[i % 4], BEFORE[(i // 4) % 4]])
        for i, n in enumerate(sorted(NAMED)):
            out += [["poly", [list(q) for q in NAMED[n]], (i + k) % 6, R[k % 5], BEFORE[k % 4]] for k in range(20)]
        for i, a in enumerate(AXES):
            for j, k in itertools.product(range(5), range(4)):
                out += [["ell", list(a), (i + j + k) % 6, R[j], BEFORE[k], x] for x in ((0., 0.), (.4, -.3))]
        return out

    def run(self, case, r):
        kind, v, pi, radii, before = case[:5]
        pose = POSES[pi]
        if before == "moved" and pose is None:
            pose = [[0., 0.], 0.]
        P0 = [[7., -8.], 1.] if before == "moved" else pose
        if kind == "ell":
            a = np.array(v)
            xr = a * case[5]
            o = ell(v, P0, xr)
        elif kind == "star":
            xr = kernel_points(v)[0]
            ok, o = r.call(poly, v, P0, True, xr)
            if not ok:
                return
        else:
            o = poly(v, P0)
        star = kind != "poly"
        if before == "polygon":
            o.polygon(), o.polygon(O)
        elif before in ("all", "moved"):
            ok, _ = r.call(vector, o, star)
            if not ok:
                return
        if before == "moved":
            o._motion_model.set_pos(pose[0])
            o._motion_model.set_rot(pose[1])
        ok, base = r.call(vector, o, star)
        if not ok:
            return
        ok, d = r.call(o.dilated_obstacle, radii[0])
        for R in radii[1:]:
            ok, d = r.call(d.dilated_obstacle, R) if ok else (ok, d)
        if not ok:
            return
        R = sum(radii)
        r.expect(d is not o and type(d) is type(o), "type", "", "%s" % type(d))
        self.judge(r, kind, d, v, R, pose, xr if star else None, "")
        ok, now = r.call(vector, o, star)
        if ok:
            why = differ(now, base)
            r.expect(why is None, "original-changed", "", str(why))
        # move the dilated obstacle
        if pose is not None:
            new = [[pose[0][0] - 3., pose[0][1] + 1.5], pose[1] + .8]
            d.set_motion_model(mm.Static(*new))
            self.judge(r, kind, d, v, R, new, xr if star else None, "after moving", sparse=True)
            ok, now = r.call(vector, o, star)
            if ok:
                why = differ(now, base)
                r.expect(why is None, "original-moved", "", str(why))
        r.outcome("%s R%g" % (kind, R))
        if star:
            # the original may get a new reference point without affecting the dilated obstacle
            o.set_xr(xr + (1e-3, 1e-3))
            r.expect(close(d.xr(O), xr, 1e-9), "reference-shared", "", "")

    def judge(self, r, kind, d, v, R, pose, xr, tag, sparse=False):
        pg, po = d.polygon(G), d.polygon(O)
        want = sg.Polygon([conv(q, pose, G) for q in list(po.exterior.coords)[:-1]],
                          [[conv(q, pose, G) for q in h.coords] for h in po.interiors])
        r.expect(pg.symmetric_difference(want).area < 1e-6, "polygon-frames", tag, "")
        loc = lambda p, f: d.point_location(conv(p, pose, f), f)
        if xr is not None:
            r.expect(close(d.xr(O), xr, 1e-9) and close(d.xr(G), conv(xr, pose, G), 1e-8), "reference", tag, "%s" % d.xr(O))
        if kind == "ell":
            a, b = np.array(v), np.array(v) + R
            P = [b * q for q in itertools.product(np.linspace(-1.7, 1.7, 9), repeat=2)]
            shape = lambda p: np.hypot(*(p / b)) - 1
            dist = [None] * len(P)
            V = geo.ellipse_ring(b + 1e-3, 20)
            r.expect(po.symmetric_difference(sg.Polygon(V)).area < 1e-6 * (1 + po.area), "polygon", tag, "%s" % po)
            ring = None
        else:
            X, Y = max(p[0] for p in v), max(p[1] for p in v)
            P = [fl(p) for p in geo.grid(-2, int(X) + 2, -2, int(Y) + 2, 2 if not sparse else 1)] + [np.array([.37, .21]), np.array([-.1, .6])]
            dist = [ring_dist(v, p) for p in P]
            ring = [np.array(q) for q in po.exterior.coords[:-1]]
            ring = ring if geo.signed_area(ring) > 0 else ring[::-1]
            for p in v:
                r.expect(po.buffer(1e-9).contains(sg.Point(p)), "not-contained", tag, "vertex %s of the original outside" % (p,))
            m = max(ring_dist(v, q) for q in ring)
            r.expect(m < R + 1e-6, "too-far", tag, "vertex at distance %.6g > %g" % (m, R))
            holes = len(po.interiors)
        for i, p in enumerate(P):
            for f in (G, O):
                ok, got = r.call(loc, p, f, sub=[tag, i, f.name])
                if not ok:
                    return
                if kind == "ell":
                    e = shape(p)
                    w = geo.sgn(e) if abs(e) > 1e-7 else None
                else:
                    w = None
                    if dist[i] < R * .99 - 1e-9:
                        w = -1
                    elif dist[i] > R + 1e-6:
                        w = 1
                    if w == 1 and holes and po.exterior.distance(sg.Point(p)) > 1e-6 and sg.Polygon(po.exterior).contains(sg.Point(p)):
                        w = None            # enclosed cavity
                if w is not None:
                    r.expect(np.sign(got) == w, "location", [tag, i, f.name], lambda: "%s at %s, distance %s from the original" % (got, p, dist[i]))
                    r.outcome("loc%d" % w)
            if sparse and i % 3:
                continue
            q = P[(7 * i + 3) % len(P)]
            for f in (G, O):
                line = [conv(p, pose, f), conv(q, pose, f)]
                ok, got = r.call(d.line_intersection, line, f, O, sub=[tag, "line", i, f.name])
                if not ok or np.allclose(p, q) or kind == "poly" and holes:
                    continue
                if kind == "ell":
                    u, w = p / b, (q - p) / b
                    A, B, C = w.dot(w), u.dot(w), u.dot(u) - 1
                    D = B * B - A * C
                    ts = [] if D < 0 else [(-B - math.sqrt(D)) / A, (-B + math.sqrt(D)) / A]
                    if abs(D) < 1e-9 or any(min(abs(t), abs(t - 1)) < 1e-9 for t in ts):
                        continue
                    want = [p + t * (q - p) for t in ts if 0 < t < 1]
                else:
                    e = (q - p) / np.hypot(*(q - p))
                    if any(abs(e[0] * w[1] - e[1] * w[0]) < 1e-6 for w in (np.array(x) - p for x in ring)):
                        continue            # touches a vertex
                    g = sg.LineString([p, q]).intersection(po.boundary)
                    if g.geom_type not in ("Point", "MultiPoint") or po.boundary.distance(sg.Point(p)) < 1e-9 or po.boundary.distance(sg.Point(q)) < 1e-9:
                        if g.is_empty:
                            r.expect(len(got) == 0, "line", [tag, i, f.name], "%s expected none" % (got,))
                        continue
                    r.expect(all(po.boundary.distance(sg.Point(x)) < 1e-6 and sg.LineString([p, q]).distance(sg.Point(x)) < 1e-6 for x in got),
                             "line-extra", [tag, i, f.name], "%s" % (got,))
                    pts = sorted([np.array(x.coords[0]) for x in getattr(g, "geoms", [g])], key=lambda x: np.hypot(*(x - p)))
                    want = [pts[0], pts[-1]] if len(pts) > 1 else pts
                got = sorted(got, key=lambda x: np.hypot(*(x - p)))
                got = [got[0], got[-1]] if len(got) > 2 else got
                r.expect(len(got) == len(want) and all(close(x, y) for x, y in zip(got, want)), "line", [tag, i, f.name],
                         lambda: "%s expected %s" % (got, want))
            if xr is None or np.hypot(*(p - xr)) < 1e-6:
                continue
            dd = (p - xr) / np.hypot(*(p - xr))
            if kind == "ell":
                u, w = xr / b, dd / b
                A, B, C = w.dot(w), u.dot(w), u.dot(u) - 1
                t = (-B + math.sqrt(B * B - A * C)) / A
                n = (xr + t * dd) / b ** 2
                n = n / np.hypot(*n)
            else:
                h = ray_hit(ring, xr, dd)
                t = h[0]
                e = ring[h[1]] - ring[h[1] - 1]
                n = np.array([e[1], -e[0]]) / np.hypot(*e) if h[2] > 1e-6 else None
            bd = xr + t * dd
            for f in (G, O):
                ok, m = r.call(d.boundary_mapping, conv(p, pose, f), f, f, sub=[tag, "map", i])
                if ok:
                    r.expect(close(m, conv(bd, pose, f)), "mapping", [tag, i, f.name], lambda: "x=%s: %s expected %s" % (p, m, conv(bd, pose, f)))
                ok, m = r.call(d.distance_function, conv(p, pose, f), f, sub=[tag, "dist", i])
                s = np.hypot(*(p - xr))
                if ok and abs(s - t) > 1e-6:
                    r.expect(np.sign(m - 1) == np.sign(s - t), "distance", [tag, i, f.name], "%s" % m)
                if n is not None:
                    ok, m = r.call(d.normal, conv(p, pose, f), f, f, sub=[tag, "normal", i])
                    if ok:
                        r.expect(close(m, rotv(n, pose, f), 1e-5), "normal", [tag, i, f.name], lambda: "at %s: %s expected %s" % (p, m, rotv(n, pose, f)))
        cvx = kind == "ell" or geo.is_convex_exact([tuple(q) for q in v])
        if cvx:
            ok, c = r.call(d.is_convex, sub=[tag, "convex"])
            if ok:
                r.expect(bool(c), "convex", tag, "dilation of a convex shape reported not convex")
            if xr is not None:
                for f in (G, O):
                    ok, k = r.call(d.kernel, f, sub=[tag, "kernel"])
                    if ok:
                        r.expect(k.symmetric_difference(d.polygon(f)).area < 1e-6, "kernel", [tag, f.name], "area %g, polygon %g" % (k.area, po.area))
        # tangents from far points
        for i, ang in enumerate(np.linspace(.1, 6.1, 5)):
            c0 = np.array(po.centroid.coords[0])
            p = c0 + 40. * np.array([math.cos(ang), math.sin(ang)])
            ok, tp = r.call(d.tangent_points, conv(p, pose, G), G, O, sub=[tag, "tangent", i])
            if not ok:
                continue
            V = geo.ellipse_ring(b, 720) if kind == "ell" else ring
            base = math.atan2(*(c0 - p)[::-1])
            an = [(math.atan2(*(np.array(q) - p)[::-1]) - base + 3 * math.pi) % (2 * math.pi) - math.pi for q in V]
            if not r.expect(len(tp) == 2, "tangent", [tag, i], "%s" % (tp,)):
                continue
            ta = [(math.atan2(*(np.array(q) - p)[::-1]) - base + 3 * math.pi) % (2 * math.pi) - math.pi for q in tp]
            r.expect(abs(ta[0] - max(an)) < 1e-4 and abs(ta[1] - min(an)) < 1e-4, "tangent", [tag, i], "%s, silhouette %s %s" % (ta, min(an), max(an)))


CHECKS = [Dilation()]
