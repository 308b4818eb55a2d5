"""Starshaped obstacles: boundary mapping, distance function, normals, kernel, convexity; frame equivariance."""
import itertools
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import NAMED, AXES, G, O, Polygon, StarshapedPolygon, poly, ell, fl, mm
from .obstacle_points import poly_cases

POSES = geo.POSES
# tiny rotations, more than one turn, and a position far away
POSES13 = POSES + [[[-.5, .75], 7e-4], [[1., 2.], -3e-6], [[0., 0.], 7.], [[800., -350.], 1.]]
FR = [(i, o) for i in (G, O) for o in (G, O)]


def conv(p, pose, to):
    """Local point to frame."""
    return np.array(p, float) if to is O else geo.to_global(p, pose)


def rotv(v, pose, to):
    return np.array(v, float) if to is O else geo.rot_vec(v, pose)


def close(a, b, tol=1e-6):
    return a is not None and np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) < tol))


def kernel_points(v):
    """Reference points: kernel centroid and a point near a kernel corner (strictly inside), as floats."""
    k = geo.kernel_exact([tuple(p) for p in v])
    c = np.array([float(sum(q[0] for q in k) / len(k)), float(sum(q[1] for q in k) / len(k))])
    return [c, .25 * c + .75 * fl(k[0])]


def ray_hit(v, xr, d):
    """Distance from xr along unit direction d to the boundary of the polygon (starshaped about xr); index of the hit edge,
    or None if the ray passes within 1e-7 of a vertex."""
    best = None
    n = len(v)
    for i in range(n):
        a, b = np.array(v[i - 1], float) - xr, np.array(v[i], float) - xr
        ca, cb = d[0] * a[1] - d[1] * a[0], d[0] * b[1] - d[1] * b[0]
        if (ca > 0) == (cb > 0):
            continue
        t = ca / (ca - cb)
        s = d.dot(a + t * (b - a))
        if s > 0 and (best is None or s > best[0]):
            best = (s, i, min(abs(ca), abs(cb)) if d.dot(a) > 0 or d.dot(b) > 0 else 1.)
    return best


def star_cases(tier, every=1):
    """(vertices) of polygons whose kernel has positive area."""
    out = [[list(q) for q in p] for p, _ in geo.star_polys(tier)[::every]]
    for n, p in NAMED.items():
        k = geo.kernel_exact(list(p))
        if len(k) > 2 and geo.area_exact(k) > 0:
            out.append([list(q) for q in p])
    return out


def query_points(X, Y):
    pts = geo.grid(-1, int(X) + 1, -1, int(Y) + 1, 2)
    return [fl(p) for p in pts] + [np.array(p) for p in ((1 / 3, 1 / 7), (1.37, .61), (23.7, -41.3), (-.003, .001))]


class Mapping(Check):
    ID = "C17"
    RULE = ("every starshaped lattice polygon (3x3; larger thorough), named starshaped polygons and ellipses x reference points (default, "
            "kernel centroid, near a kernel corner) x poses x grid, vertex, edge, far and near-reference query points x all frame pairs")
    ASSUMPTIONS = ("query point differs from the reference point", "the reference point is in the interior of the kernel")

    def cases(self, tier):
        pis = (0, 2, 4) if tier == "thorough" else (4,)
        out = [["poly", v, pi, k] for v in star_cases(tier) for pi in pis for k in (0, 1)]
        out += [["poly", v, pi, k] for v in star_cases("quick", 7) for pi in (0, 1, 2, 3, 5) for k in (None, 0)]
        out += [["ell", list(a), pi, list(x)] for a in AXES for pi in range(len(POSES))
                for x in ((0., 0.), (.3, .2), (-.6, .5), (0., -.7))]
        return out

    def run(self, case, r):
        kind, v, pi, k = case
        pose = POSES[pi]
        if kind == "poly":
            xr = None if k is None else kernel_points(v)[k]
            ok, o = r.call(poly, v, pose, True, xr)
            if not ok:
                return
            if xr is None:
                xr = np.array(o.xr(O), float)
            X, Y = max(p[0] for p in v), max(p[1] for p in v)
            P = query_points(X, Y) + [np.array(p, float) for p in v] + \
                [(np.array(v[i - 1]) + np.array(v[i])) / 2 for i in range(len(v))] + [xr + (1e-3, 5e-4), xr + (-2e-5, 3e-5)]

            def dist(d):
                return ray_hit(v, xr, d)[0]
        else:
            a = np.array(v)
            xr = a * k
            o = ell(v, pose, xr)
            P = [a * q for q in itertools.product(np.linspace(-2, 2, 9), repeat=2)] + \
                [a * (math.cos(t), math.sin(t)) for t in np.linspace(0, 2 * math.pi, 17)] + \
                [np.array([31., -77.]), xr + (1e-3, 5e-4), xr + (-2e-5, 3e-5)]

            def dist(d):
                p, q = xr / a, d / a
                A, B, C = q.dot(q), p.dot(q), p.dot(p) - 1
                return (-B + math.sqrt(B * B - A * C)) / A
        r.expect(close(o.xr(O), xr, 1e-9) and close(o.xr(), conv(xr, pose, G), 1e-9), "xr", "", "")
        for n, p in enumerate(P):
            s = np.hypot(*(p - xr))
            if s < 1e-9:
                continue
            d = (p - xr) / s
            t = dist(d)
            b = xr + t * d
            for fi, fo in FR:
                sub = [n, fi.name, fo.name]
                q = conv(p, pose, fi)
                ok, m = r.call(o.boundary_mapping, q, fi, fo, sub=sub)
                if ok:
                    r.expect(close(m, conv(b, pose, fo)), "mapping", sub, lambda: "x=%s xr=%s: %s expected %s" % (
                        p, xr, m, conv(b, pose, fo)))
                ok, m = r.call(o.reference_direction, q, fi, fo, sub=sub)
                if ok:
                    r.expect(close(m, rotv(d, pose, fo), max(1e-6, 1e-12 / s)), "direction", sub, "%s" % m)
                if fo is G:
                    ok, m = r.call(o.distance_function, q, fi, sub=sub)
                    if ok:
                        want = geo.sgn(s - t) if abs(s - t) > 1e-6 else 0
                        got = geo.sgn(m - 1) if abs(m - 1) > 1e-5 or want else 0
                        r.expect(got == want and m >= 0, "distance", sub, lambda: "%s at %.6g of the way to the boundary" % (m, s / t))
                        r.outcome("dist%d" % want)
            if n % 4 == 0:
                vals = []
                for f in (.05, .4, .8, .97, 1., 1.05, 1.6, 4.):
                    ok, m = r.call(o.distance_function, conv(xr + f * t * d, pose, G), sub=[n, f])
                    vals.append(float(m) if ok else math.nan)
                r.expect(all(x < y for x, y in zip(vals, vals[1:])), "monotone", [n], str(vals))
                r.expect(abs(vals[4] - 1) < 1e-5, "one-at-boundary", [n], str(vals[4]))


class Normals(Check):
    ID = "C18"
    RULE = Mapping.RULE + "; points on and off the boundary"
    ASSUMPTIONS = ("directions within 1e-6 of a corner are not claimed", "the edge normal type of polygons and the normals of ellipses are meant")

    def cases(self, tier):
        return Mapping().cases(tier)

    def run(self, case, r):
        kind, v, pi, k = case
        pose = POSES[pi]
        if kind == "poly":
            xr = None if k is None else kernel_points(v)[k]
            ok, o = r.call(poly, v, pose, True, xr)
            if not ok:
                return
            if xr is None:
                xr = np.array(o.xr(O), float)
            n = len(v)
            P = []
            for i in range(n):
                a, b = np.array(v[i - 1], float), np.array(v[i], float)
                for t in (1e-3, .3, .5, .77, .999):
                    for f in (1., .4, 1.7):
                        P.append((xr + f * (a + t * (b - a) - xr), None, f == 1.))
            P += [(p, None, False) for p in query_points(max(p[0] for p in v), max(p[1] for p in v))]

            def normal(p):
                s = np.hypot(*(p - xr))
                if s < 1e-9:
                    return None
                h = ray_hit(v, xr, (p - xr) / s)
                a, b = np.array(v[h[1] - 1], float) - xr, np.array(v[h[1]], float) - xr
                d = (p - xr) / s
                for w in (a, b):
                    if abs(d[0] * w[1] - d[1] * w[0]) < 1e-6 and d.dot(w) > 0:
                        return None
                e = b - a
                m = np.array([e[1], -e[0]]) / np.hypot(*e)
                return m
        else:
            a = np.array(v)
            xr = a * k
            o = ell(v, pose, xr)
            P = [(xr + f * (a * (math.cos(t), math.sin(t)) - xr), None, f == 1.) for t in np.linspace(.05, 6.3, 24) for f in (1., .5, 2.5)]

            def normal(p):
                d = p - xr
                u, w = xr / a, d / a
                A, B, C = w.dot(w), u.dot(w), u.dot(u) - 1
                b = xr + (-B + math.sqrt(B * B - A * C)) / A * d
                m = b / a ** 2
                return m / np.hypot(*m)
        for i, (p, _, on) in enumerate(P):
            m = normal(p)
            if m is None:
                r.outcome("corner")
                continue
            for fi, fo in FR:
                for bd in (False, True) if on else (False,):
                    sub = [i, fi.name, fo.name, bd]
                    ok, g = r.call(o.normal, conv(p, pose, fi), fi, fo, bd, sub=sub)
                    if ok:
                        r.expect(close(g, rotv(m, pose, fo), 1e-5), "normal", sub, lambda: "at %s: %s expected %s" % (p, g, rotv(m, pose, fo)))
            r.outcome("on boundary" if on else "off boundary")


def presentation_list(v, tier, i):
    full = geo.presentations([tuple(q) for q in v], ("ccw", "rolls", "cw", "mid", "closed"))
    return full if tier == "thorough" or i % 4 == 0 else [full[i % (len(full) - 1) + 1], *[q for q in full[-4:-2]]]


class Kernel(Check):
    ID = "C19"
    RULE = ("every starshaped lattice polygon (3x3 complete; 4x3 with <=6 and 4x4 with <=5 vertices in thorough), its presentations (start vertex, orientation, "
            "redundant collinear vertices, closed ring, repeated vertices), named polygons and ellipses x poses; kernel compared with exact half-plane clipping; "
            "default reference point; safe selection of grid points")
    ASSUMPTIONS = ("polygons whose kernel has an empty interior are not claimed", "safe selection is not judged within 1e-6 of the kernel's boundary")

    def cases(self, tier):
        out = []
        for i, v in enumerate(star_cases(tier)):
            for j, p in enumerate(presentation_list(v, tier, i)):
                out.append(["poly", [[float(q[0]), float(q[1])] for q in p], (4, 0, 1, 2)[j % 4]])
            dup = geo.presentations([tuple(q) for q in v], ("dup",))
            for j in range(i % 5, len(dup), 5) if tier == "thorough" else (i % (len(dup) - 2), len(dup) - 1 - i % 2):
                out.append(["poly", [[float(q[0]), float(q[1])] for q in dup[j]], (4, 0, 1, 2)[j % 4]])
        if tier == "quick":
            for i, v in enumerate(star_cases("thorough")):
                if geo.is_convex_exact([tuple(q) for q in v]):
                    continue
                full = presentation_list(v, "thorough", i)
                for j in range(i % 2, len(full), 13 if len(v) > 4 else 29):
                    c = ["poly", [[float(q[0]), float(q[1])] for q in full[j]], (4, 0, 1, 2)[j % 4]]
                    out.append(c)
        out += [["ell", list(a), pi] for a in AXES for pi in range(len(POSES))]
        return out

    def run(self, case, r):
        kind, v, pi = case
        pose = POSES[pi]
        if kind == "ell":
            o = ell(v, pose)
            ref = sg.Polygon(geo.ellipse_ring(v, 200))
            tol = ref.area * .06
        else:
            ok, o = r.call(poly, v, pose, True, limit=8.)
            if not ok:
                return
            vt = [(Fraction(a).limit_denominator(16), Fraction(b).limit_denominator(16)) for a, b in v]
            if vt[0] == vt[-1]:
                vt = vt[:-1]
            vt = [q for i, q in enumerate(vt) if q != vt[i - 1]]
            if geo.area_exact(vt) < 0:
                vt = vt[::-1]
            k = geo.kernel_exact(vt)
            ref = sg.Polygon([fl(q) for q in k])
            tol = 1e-6
        for f in (G, O):
            ok, got = r.call(o.kernel, f, sub=f.name, limit=8.)
            if not ok:
                return
            want = sg.Polygon([conv(q, pose, f) for q in list(ref.exterior.coords)[:-1]])
            near = kind == "poly" and any(0 < math.dist(v[i - 1], v[i]) < 1e-9 for i in range(len(v)))
            if near and got is not None and not got.is_valid:
                got = got.buffer(0)           # the polygon itself has a spike of rounding size
            if not r.expect(got is not None and got.is_valid, "invalid", f.name, "kernel %s" % got):
                return
            r.expect(geo.differ(got, want) < tol, "kernel", f.name,
                     lambda: "area %.6g, expected %.6g, difference %.3g" % (got.area, want.area, geo.differ(got, want)))
        xr = o.xr(O)
        r.expect(ref.buffer(1e-6).contains(sg.Point(*xr)), "reference", "", "default reference point %s" % xr)
        b = ref.bounds
        w = max(b[2] - b[0], b[3] - b[1])
        for i, j in itertools.product(range(-1, 5), repeat=2):
            q = np.array([b[0] + (i + .37) * w / 3, b[1] + (j + .21) * w / 3])
            d = ref.exterior.distance(sg.Point(*q))
            if d < (1e-6 if kind == "poly" else .06 * w):
                continue
            f = G if (i + j) % 2 else O
            before = np.array(o.xr(O))
            ok, _ = r.call(o.set_xr, conv(q, pose, f), f, True, sub=["safe", i, j])
            if not ok:
                return
            inside = ref.contains(sg.Point(*q))
            r.expect(close(o.xr(O), q if inside else before, 1e-9), "safe-set", [i, j], "xr=%s after safely setting %s" % (o.xr(O), q))
            r.outcome("safe %s" % ("inside" if inside else "outside"))
        r.outcome("kernel corners %d" % (len(ref.exterior.coords) - 1 if kind == "poly" else 0))


class Convexity(Check):
    ID = "C27"
    RULE = ("every simple lattice polygon (3x3 all; larger thorough) and named polygon in every presentation (start vertex, orientation, "
            "redundant collinear vertices on every or many on one edge, closed ring, vertices repeated exactly or within rounding; several units of length) as Polygon and, if starshaped, StarshapedPolygon x poses; ellipses")
    ASSUMPTIONS = ("an explicitly declared convexity/starshapedness is trusted",)

    def cases(self, tier):
        return [["poly", p, i] for i, (n, p) in enumerate(poly_cases(tier))] + [["ell", list(a), 0] for a in AXES]

    def run(self, case, r):
        kind, v, i = case
        if kind == "ell":
            for pose in POSES:
                o = ell(v, pose)
                r.expect(o.is_convex() is True and o.is_starshaped() is True, "ellipse", str(pose), "")
            return
        vt = [tuple(q) for q in v]
        cvx = geo.is_convex_exact(vt)
        k = geo.kernel_exact(vt)
        star = len(k) > 2 and geo.area_exact(k) > 0
        for n, p in enumerate(geo.presentations(vt, ("ccw", "rolls", "cw", "mid", "closed", "many", "dup"))):
            pose = POSES[(i + n) % len(POSES)]
            for st in (0, 1) if star else (0,):
                sub = [n, st]
                kw = {} if not st else {"xr": kernel_points(v)[0]}
                ok, o = r.call(poly, p, pose, bool(st), sub=sub, **kw)
                if not ok:
                    continue
                for order in (0, 1):
                    if order:                  # asking for starshapedness first
                        ok, o = r.call(poly, p, pose, bool(st), sub=sub, **kw)
                        if not ok:
                            continue
                        ok, s = r.call(o.is_starshaped, sub=sub)
                        ok, c = r.call(o.is_convex, sub=sub)
                    else:
                        ok, c = r.call(o.is_convex, sub=sub)
                        ok, s = r.call(o.is_starshaped, sub=sub)
                    if not ok:
                        continue
                    r.expect(bool(c) == cvx, "convex", sub, "reported %s" % c)
                    r.expect(bool(s) == (bool(st) or cvx), "starshaped", sub, "reported %s" % s)
        for n, p in enumerate(geo.presentations(vt, ("ccw", "cw", "mid"))):
            for unit in (1 / 256, .003, 256., 100.7):
                ok, o = r.call(poly, [(unit * float(a), unit * float(b)) for a, b in p], None, False, sub=["unit", unit, n])
                if ok:
                    ok, c = r.call(o.is_convex, sub=["unit", unit, n])
                    if ok:
                        r.expect(bool(c) == cvx, "convex", ["unit", unit, n], "reported %s" % c)
        for c in (True, False):
            ok, o = r.call(lambda: Polygon(v, is_convex=c), sub="declared")
            if ok:
                r.expect(o.is_convex() is c, "declared", c, "")
        ok, o = r.call(lambda: Polygon(v, is_starshaped=True), sub="declared")
        if ok:
            r.expect(o.is_starshaped() is True and bool(o.is_convex()) == cvx, "declared-star", "", "")
        r.outcome("convex" if cvx else "star" if star else "general")


class Frames(Check):
    ID = "C13"
    RULE = ("polygons (every 6th lattice polygon, named shapes), starshaped polygons and ellipses with and without reference point x 9 poses "
            "(incl. rotation by pi/2, pi, -2, tiny rotations, more than one turn, far away) x query points x all frame pairs, for every query of the interface; oracle: the same query on an "
            "unposed obstacle, moved by the pose; also the interface's own coordinate transformations, and poses set through the motion model later")
    ASSUMPTIONS = ("query points are at least 1e-6 away from decision boundaries (boundary, tangent directions)",)

    def cases(self, tier):
        s = 2 if tier == "thorough" else 6
        out = [["poly", [list(q) for q in p], 0] for p in geo.polys("quick")[::s]] + [["poly", [list(q) for q in p], 0] for p in NAMED.values()]
        out += [["poly", v, 1] for v in star_cases("quick", s)] + [["ell", list(a), x] for a in AXES for x in (0, 1)]
        return [c + [pi] for c in out for pi in range(1, len(POSES))] + [c + [pi] for c in out[::1 if tier == "thorough" else 4] for pi in range(len(POSES), len(POSES13))]

    def make(self, kind, v, st, pose, late):
        if late and pose is not None:
            m = mm.Static([7., -8.], 1.2)
            o = self.make2(kind, v, st, m)
            o.polygon(), o.xr() if st or kind == "ell" else None
            m.set_pos(pose[0])
            m.set_rot(pose[1])
            return o
        return self.make2(kind, v, st, None if pose is None else mm.Static(pose[0], pose[1]))

    def make2(self, kind, v, st, m):
        from ..obs import Ellipse
        if kind == "ell":
            return Ellipse(list(v), xr=np.array(v) * (.3, -.4) if st else None, motion_model=m)
        vv = [[float(a), float(b)] for a, b in v]
        return StarshapedPolygon(vv, xr=kernel_points(v)[1], motion_model=m) if st else Polygon(vv, motion_model=m)

    def run(self, case, r):
        kind, v, st, pi = case
        pose = POSES13[pi]
        star = kind == "ell" or st
        for late in (False, True):
            ok, o0 = r.call(self.make, kind, v, st, None, False, sub="base")
            ok2, o = r.call(self.make, kind, v, st, pose, late, sub=["posed", late])
            if not (ok and ok2):
                return
            self.compare(o0, o, kind, v, star, pose, late, r)

    def compare(self, o0, o, kind, v, star, pose, late, r):
        V = geo.ellipse_ring(v, 24) if kind == "ell" else np.array(v, float)
        c, w = V.mean(axis=0), np.ptp(V, axis=0).max()
        Q = [c + w * np.array(q) for q in ((.013, .027), (.93, .2157), (-.31, 1.17), (.41, -.87), (-1.61, -.77), (.23, .31), (5.3, 4.1))]
        for f in (G, O):
            want = sg.Polygon([conv(p, pose, f) for p in list(o0.polygon().exterior.coords)])
            r.expect(geo.differ(o.polygon(f), want) < 1e-9, "polygon", [late, f.name], "")
            e = sorted(map(tuple, np.round(o.extreme_points(f), 6)))
            e0 = sorted(map(tuple, np.round([conv(p, pose, f) for p in o0.extreme_points()], 6)))
            r.expect(len(e) == len(e0) and np.allclose(e, e0, atol=3e-6), "extreme_points", [late, f.name], "")
            r.expect(close(o.pos(f), pose[0] if f is G else np.zeros(2), 1e-12) and o.rot(f) == (pose[1] if f is G else 0), "pose", [late, f.name], "")
            if star:
                r.expect(close(o.xr(f), conv(o0.xr(), pose, f), 1e-9), "xr", [late, f.name], "")
                ok, k = r.call(o.kernel, f, sub=[late, f.name], limit=8.)
                ok0, k0 = r.call(o0.kernel, sub="base", limit=8.)
                if ok and ok0 and k is not None and k0 is not None:
                    want = sg.Polygon([conv(p, pose, f) for p in list(k0.exterior.coords)])
                    r.expect(geo.differ(k, want) < 1e-9, "kernel", [late, f.name], "")
        for i, q in enumerate(Q):
            for fi, fo in FR:
                sub = [late, i, fi.name, fo.name]
                x, x0 = conv(q, pose, fi), q
                r.expect(close(o.transform(x, fi, fo), conv(q, pose, fo), 1e-9), "transform", sub, "")
                r.expect(close(o.rotate(rotv(q, pose, fi), fi, fo), rotv(q, pose, fo), 1e-9), "rotate", sub, "")
                self.same(r, "tangent_points", sub, o.tangent_points, o0.tangent_points, (x, fi, fo), (x0,), pose, fo, True)
                l = [Q[i], Q[i - 3]]
                self.same(r, "line_intersection", sub, o.line_intersection, o0.line_intersection,
                          ([conv(p, pose, fi) for p in l], fi, fo), (l,), pose, fo, False)
                if fo is G:
                    ok, a = r.call(o.point_location, x, fi, sub=sub)
                    ok0, b = r.call(o0.point_location, x0, sub="base")
                    if ok and ok0:
                        r.expect(geo.sgn(a) == geo.sgn(b) and abs(a - b) < 1e-6, "point_location", sub, "%s vs %s" % (a, b))
                    for nm in ("interior_point", "exterior_point"):
                        r.expect(getattr(o, nm)(x, fi) == getattr(o0, nm)(x0), nm, sub, "")
                    if star:
                        ok, a = r.call(o.distance_function, x, fi, sub=sub)
                        ok0, b = r.call(o0.distance_function, x0, sub="base")
                        if ok and ok0:
                            r.expect(abs(a - b) < 1e-6 * max(1, abs(b)), "distance_function", sub, "%s vs %s" % (a, b))
                if star:
                    for nm, isdir in (("boundary_mapping", 0), ("normal", 1), ("reference_direction", 1)):
                        ok, a = r.call(getattr(o, nm), x, fi, fo, sub=sub)
                        ok0, b = r.call(getattr(o0, nm), x0, sub="base")
                        if ok and ok0:
                            want = rotv(b, pose, fo) if isdir else conv(b, pose, fo)
                            r.expect(close(a, want, 1e-5 if nm == "normal" else 1e-6), nm, sub, "%s vs %s" % (a, want))
        if star:
            for f in (G, O):
                x = conv(np.asarray(o0.xr()) + .01, pose, f)
                x_in = x.copy()
                ok, _ = r.call(o.set_xr, x, f, sub=["set_xr", f.name])
                if ok:
                    r.expect(close(o.xr(f), x, 1e-9) and close(x, x_in, 0.1e-12), "set_xr", [late, f.name], "")
        r.outcome("%s star=%s" % (kind, bool(star)))

    def same(self, r, nm, sub, f, f0, a, a0, pose, fo, ordered):
        ok, p = r.call(f, *a, sub=sub)
        ok0, q = r.call(f0, *a0, sub="base")
        if not (ok and ok0):
            return
        q = [conv(t, pose, fo) for t in q]
        if not ordered:
            p, q = (sorted(map(lambda t: tuple(np.round(t, 5)), s)) for s in (p, q))
        r.expect(len(p) == len(q) and (len(q) == 0 or np.allclose(p, q, atol=2e-5)), nm, sub, lambda: "%s vs %s" % (p, q), nontrivial=len(q) > 0)


CHECKS = [Frames(), Mapping(), Normals(), Kernel(), Convexity()]
