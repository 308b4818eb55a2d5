"""Combinations of obstacles (C26)."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import G, O, Polygon, StarshapedPolygon, Ellipse, StarshapedPrimitiveCombination, mm

STAR4 = [(-2, -2), (0, -1), (2, -2), (1, 0), (2, 2), (0, 1), (-2, 2), (-1, 0)]
# name: (kind, shape, own pose)
PARTS = {
    "A": ("ell", (1.5, .6), [[.3, .1], .4]),
    "B": ("ell", (.7, 1.2), [[-.4, .5], -.3]),
    "C": ("star", [(-1, -1), (1, -1), (0, 1.4)], [[0., 0.], 0.]),
    "D": ("star", STAR4, [[.1, .05], .2]),
    "E": ("star", [(-.2, -1.8), (.9, -1.8), (.9, .3), (-.2, .3)], [[-.1, .1], 0.]),
    "F": ("star", [(0, 0), (2, 1), (4, 0), (2, 4)], [[-2., -1.5], 0.]),
    "H": ("ell", (.5, .5), [[1.9, .3], 0.]),            # does not contain the reference points
    "I": ("star", [(0, 0), (1, 0), (1, 1), (0, 1)], [[-1.6, .2], .3]),
}
XR = [(.13, .06), (.0, -.04)]
WORLD = [None, [[0., 0.], 0.], [[2., -1.], .7], [[-3., 1.5], -2.5], [[.5, .25], math.pi / 2]]
HULLS = ["none", "star", "tri", "disc"]


def compose(pose, own):
    if pose is None:
        return own
    return [geo.to_global(own[0], pose).tolist(), own[1] + pose[1]]


class Part:
    def __init__(self, name, world):
        self.kind, self.shape, own = PARTS[name]
        self.pose = compose(world, own)
        i = sorted(PARTS).index(name)
        self.vel = np.array([.3 + i, -.2 * i])
        if self.kind == "star":
            self.ring = [geo.to_global(q, self.pose) for q in self.shape]

    def build(self):
        m = mm.SinusVelocity(list(self.pose[0]), self.pose[1], True, self.vel[0], 0, self.vel[1], 0)
        if self.kind == "ell":
            return Ellipse(list(self.shape), motion_model=m)
        return StarshapedPolygon([list(map(float, q)) for q in self.shape], motion_model=m)

    def margin(self, p):
        """Negative inside, positive outside."""
        if self.kind == "ell":
            return np.hypot(*(geo.to_local(p, self.pose) / self.shape)) - 1
        d = min(seg_dist(self.ring[i - 1], self.ring[i], p) for i in range(len(self.ring)))
        return -d if winding(self.ring, p) else d

    def hits(self, p, q):
        """Parameters of the crossings of the boundary with the infinite line p + t (q - p)."""
        if self.kind == "ell":
            u, w = geo.to_local(p, self.pose) / self.shape, geo.rot_vec(q - p, self.pose, True) / self.shape
            A, B, C = w.dot(w), u.dot(w), u.dot(u) - 1
            D = B * B - A * C
            return [] if D < 0 else [(-B - math.sqrt(D)) / A, (-B + math.sqrt(D)) / A], (abs(D) < 1e-9)
        return ring_hits(self.ring, p, q)

    def normal(self, b):
        if self.kind == "ell":
            m = geo.to_local(b, self.pose) / np.array(self.shape) ** 2
            return geo.rot_vec(m / np.hypot(*m), self.pose)
        return ring_normal(self.ring, b)

    def outline(self):
        if self.kind == "ell":
            return [geo.to_global(q, self.pose) for q in geo.ellipse_ring(np.array(self.shape) + 1e-3, 20)]
        return self.ring


def seg_dist(a, b, p):
    t = min(1., max(0., (p - a).dot(b - a) / (b - a).dot(b - a)))
    return np.hypot(*(p - a - t * (b - a)))


def winding(ring, p):
    c = False
    for i in range(len(ring)):
        a, b = ring[i - 1], ring[i]
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]):
            c = not c
    return c


def ring_hits(ring, p, q):
    d = q - p
    out, deg = [], False
    for i in range(len(ring)):
        a, b = ring[i - 1] - p, ring[i] - p
        ca, cb = d[0] * a[1] - d[1] * a[0], d[0] * b[1] - d[1] * b[0]
        deg = deg or abs(ca) < 1e-7 * np.hypot(*d)
        if (ca > 0) != (cb > 0):
            t = ca / (ca - cb)
            out.append(d.dot(a + t * (b - a)) / d.dot(d))
    return out, deg


def ring_normal(ring, b):
    """Normal of the edge at b, None near corners."""
    best = min(range(len(ring)), key=lambda i: seg_dist(ring[i - 1], ring[i], b))
    if min(np.hypot(*(ring[best] - b)), np.hypot(*(ring[best - 1] - b))) < 1e-5:
        return None
    e = ring[best] - ring[best - 1]
    return np.array([e[1], -e[0]]) / np.hypot(*e) * (1 if geo.signed_area(ring) > 0 else -1)


def float_kernel(ring):
    """Kernel by clipping with all edges (floating point)."""
    k = sg.Polygon(ring).envelope
    c = [np.array(q) for q in list(k.exterior.coords)[:-1]]
    c = c if geo.signed_area(c) > 0 else c[::-1]
    for i in range(len(ring)):
        a, b = ring[i - 1], ring[i]
        e = b - a
        if np.hypot(*e) < 1e-12:
            continue
        side = lambda p: (e[0] * (p[1] - a[1]) - e[1] * (p[0] - a[0]))
        n = []
        for j in range(len(c)):
            u, v = c[j - 1], c[j]
            su, sv = side(u), side(v)
            if (su >= 0) != (sv >= 0):
                n.append(u + su / (su - sv) * (v - u))
            if sv >= 0:
                n.append(v)
        c = n
        if len(c) < 3:
            return []
    return c


def visible(parts, hull, xr):
    """Is every ray from xr covered exactly up to its last boundary crossing?"""
    out = []
    for ang in np.linspace(.0123, 2 * math.pi + .0123, 96, endpoint=False):
        d = np.array([math.cos(ang), math.sin(ang)])
        ev = []
        for s in parts + ([hull] if hull else []):
            h, _ = s.hits(xr, xr + d)
            h = sorted(h)
            ev += [(max(x, 0), y) for x, y in zip(h[::2], h[1::2]) if y > 0]
        ev.sort()
        reach = 0.
        for x, y in ev:
            if x > reach + 1e-9:
                return False
            reach = max(reach, y)
        if reach < .05:
            return False
    return True


class HullPart:
    def __init__(self, ring):
        self.ring = ring if geo.signed_area(ring) > 0 else ring[::-1]
        self.kind = "hull"

    margin, hits = Part.margin, Part.hits

    def normal(self, b):
        return ring_normal(self.ring, b)


def kernel_of(o):
    try:
        return o.kernel()
    except Exception:
        return None


class Combination(Check):
    ID = "C26"
    RULE = ("every part and ordered pair (unordered triple) of 8 starshaped parts (ellipses, convex and non-convex polygons; two not containing the reference point) whose "
            "union with the hull extension {none, starshaped hull, triangle, 16-gon} is starshaped about the reference point x 2 reference points (given, "
            "set later, or set after queries) x 5 poses; 40 rays with 6 distances each, grid points and lines")
    ASSUMPTIONS = ("parts are starshaped obstacles and do not move after the combination was formed", "points on the boundary of one part that are inside another one are not claimed",
                   "the polygon and the polygon_approx normals approximate ellipses by 20-gons", "tangent points ignore the hull (documented)")

    def cases(self, tier):
        names = sorted(PARTS)
        sets = [(a,) for a in names] + list(itertools.permutations(names, 2)) + [("A", "A"), ("C", "C")]
        tri = list(itertools.combinations(names, 3)) if tier == "quick" else list(itertools.permutations(names, 3))
        out = []
        for i, s in enumerate(sets + tri):
            for h in HULLS:
                for x in (0, 1):
                    P = range(5) if tier == "thorough" else ((i + x) % 5,) if len(s) == 3 else ((i + x) % 5, (i + 2 + x) % 5)
                    out += [["".join(s), h, x, w, (i + x + w) % 3] for w in P]
        if tier == "quick":
            out = [c for i, c in enumerate(out) if len(c[0]) < 3 or i % 3 == 0]
        return out

    def run(self, case, r):
        names, hk, xi, wi, later = case
        world = WORLD[wi]
        parts = [Part(n, world) for n in names]
        xr = geo.to_global(XR[xi], world)
        if hk == "none":
            hull = None
        elif hk == "tri":
            hull = HullPart([geo.to_global(q, world) for q in ((-.9, -.6), (1.7, -.3), (.4, 1.5))])
        elif hk == "disc":
            hull = HullPart([geo.to_global((.05 + 1.1 * math.cos(t), 1.1 * math.sin(t)), world) for t in np.linspace(.05, 2 * math.pi + .05, 16, endpoint=False)])
        else:
            K = [tuple(xr + .04 * np.array([math.cos(t), math.sin(t)])) for t in (.3, 2.5, 4.4)]
            pol = geo.union([geo.star_hull(sg.Polygon(p.outline()).buffer(0), K) for p in parts])
            if pol.geom_type != "Polygon" or len(pol.interiors):
                r.outcome("not starshaped")
                return
            hull = HullPart([np.array(q) for q in pol.exterior.coords[:-1]])
            if min(seg_dist(hull.ring[i - 1], hull.ring[i], xr) for i in range(len(hull.ring))) < 1e-3:
                r.outcome("not starshaped")
                return
        if not visible(parts, hull, xr):
            r.outcome("not starshaped")
            return
        hp = None if hull is None else sg.Polygon(hull.ring)
        other = geo.to_global(XR[1 - xi], world)

        def make():
            o = StarshapedPrimitiveCombination([p.build() for p in parts], hp, other if later else xr.copy())
            if later > 1:           # every cache filled with the earlier reference point
                for q in (o.polygon, o.kernel, o.is_convex, *(lambda t=t: o.normal(other + np.array([.3, .7]), type=t)
                                                              for t in ("sub_normal", "polygon_approx", "weigthed_polygon_approx"))):
                    try:
                        q()
                    except Exception:
                        pass        # the union need not be starshaped about the earlier reference point
            if later:
                o.set_xr(xr.copy(), G if later > 1 else O)
            return o
        ok, o = r.call(make)
        if not ok:
            return
        every = parts + ([hull] if hull else [])
        r.outcome("parts %d hull %s" % (len(parts), hk))
        # polygon
        ok, pol = r.call(o.polygon)
        if not ok:
            return
        want = geo.union([sg.Polygon(p.outline()) for p in parts] + ([hp] if hp is not None else []))
        r.expect(pol.symmetric_difference(want).area < 1e-6, "polygon", "", lambda: "area %g expected %g" % (pol.area, want.area))
        r.expect(o.polygon(O).equals(pol), "polygon-frame", "", "")
        ring = [np.array(q) for q in want.exterior.coords[:-1]] if want.geom_type == "Polygon" else None
        if ring is not None:
            ring = ring if geo.signed_area(ring) > 0 else ring[::-1]
            edges = [ring[i] - ring[i - 1] for i in range(len(ring))]
            turns = [edges[i - 1][0] * edges[i][1] - edges[i - 1][1] * edges[i][0] for i in range(len(edges))]
            clear = [t for t in turns if abs(t) > 1e-7]
            cvx = not len(want.interiors) and all(t > 0 for t in clear)
            ok, c = r.call(o.is_convex)
            if ok and (cvx or min(clear) < -1e-4):
                r.expect(bool(c) == cvx, "convex", "", "reported %s" % c)
                r.outcome("convex" if cvx else "not convex")
            # the kernel is that of the union polygon (the exactness of polygon kernels is C19)
            k, ref = kernel_of(o), kernel_of(StarshapedPolygon(pol, xr=xr, id="temp"))
            r.expect((k is None) == (ref is None) and (k is None or k.equals(ref) or k.symmetric_difference(ref).area < 1e-9), "kernel", "",
                     lambda: "%s, of the union polygon %s" % (k, ref))
            fk = float_kernel(ring) if not len(want.interiors) else []
            if len(fk) > 2 and k is not None and k.is_valid:
                r.outcome("kernel exact" if k.symmetric_difference(sg.Polygon(fk)).area < 1e-5 else "kernel inexact (C19)")
        # queries along rays
        for n in range(40):
            ang = 2 * math.pi * (n + .37) / 40
            d = np.array([math.cos(ang), math.sin(ang)])
            hits = []
            for i, s in enumerate(every):
                h, deg = s.hits(xr, xr + d)
                h = [t for t in h if t > 1e-9]
                if h:
                    hits.append((max(h), i, deg))
            hits.sort(reverse=True)
            t, who, deg = hits[0]
            b = xr + t * d
            clear = not deg and (len(hits) < 2 or t - hits[1][0] > 1e-6)
            for f in (.02, .5, .97, 1., 1.3, 9.):
                x = xr + f * t * d
                sub = [n, f]
                ok, m = r.call(o.boundary_mapping, x, sub=sub)
                if ok and not deg:
                    r.expect(m is not None and np.allclose(m, b, atol=1e-6 * (1 + t)), "mapping", sub, lambda: "%s expected %s" % (m, b))
                if clear:
                    ok, m = r.call(o.reference_direction, x, sub=sub)
                    r.expect(ok and np.allclose(m, d, atol=1e-6), "direction", sub, "%s" % m)
                    ok, m = r.call(o.distance_function, x, sub=sub)
                    if ok:
                        r.expect(abs(m - 1) < 1e-4 if f == 1. else np.sign(m - 1) == np.sign(f - 1), "distance", sub, "%s at %s" % (m, f))
                    obs = [h for h in hits if h[1] < len(parts)]
                    if len(obs) and (len(obs) < 2 or obs[0][0] - obs[1][0] > 1e-6) and not obs[0][2]:
                        ok, m = r.call(o.vel_intertial_frame, x, sub=sub)
                        if ok:
                            r.expect(np.allclose(m, parts[obs[0][1]].vel, atol=1e-9), "velocity", sub, lambda: "%s expected %s" % (m, parts[obs[0][1]].vel))
                if f != 1.:
                    self.location(r, o, every, x, sub)
            if clear:
                nn = every[who].normal(b)
                if nn is not None:
                    ok, m = r.call(o.normal, b, type="sub_normal", sub=[n, "sub_normal"])
                    if ok:
                        r.expect(m is not None and np.allclose(m, nn, atol=1e-5), "sub_normal", [n], lambda: "at %s: %s expected %s" % (b, m, nn))
            if ring is not None:
                rh, rdeg = ring_hits(ring, xr, xr + d)
                tb = max(h for h in rh)
                bb = xr + tb * d
                nn = ring_normal(ring, bb)
                if not rdeg and nn is not None and sum(h > 0 for h in rh) == 1:
                    for ty in ("polygon_approx", "weigthed_polygon_approx"):
                        for x in ((bb, xr + .4 * tb * d, xr + 3 * tb * d) if ty == "polygon_approx" else (bb,)):
                            ok, m = r.call(o.normal, x, type=ty, sub=[n, ty])
                            if ok:
                                r.expect(np.allclose(m, nn, atol=1e-4), ty, [n], lambda: "at %s: %s expected %s" % (x, m, nn))
                    for x in (b, xr + 1.5 * tb * d):
                        ok, m = r.call(o.normal, x, sub=[n, "default"])
                        if ok:
                            r.expect(abs(np.hypot(*m) - 1) < 1e-9, "default-normal", [n], "%s" % m)
        # lines along the edges of the extension
        if o.hull_cluster() is not None and o.hull_cluster().geom_type == "Polygon":
            ring = np.array(o.hull_cluster().exterior.coords)
            for i, (a, b) in enumerate(zip(ring[:-1], ring[1:])):
                if np.hypot(*(b - a)) < 1e-6:
                    continue
                for j, (p, p2) in enumerate(((a, b), (a - .4 * (b - a), b + .3 * (b - a)), (a + .25 * (b - a), a + .5 * (b - a)))):
                    ok, m = r.call(o.line_intersection, [p, p2], sub=["hull-edge", i, j])
                    if ok:
                        r.expect(all(min(abs(s.margin(np.array(x))) for s in every) < 1e-6 and seg_dist(p, p2, np.array(x)) < 1e-6 for x in m), "edge-line", [i, j], "%s" % m)
                        if j < 2 and (a[0] == b[0] or a[1] == b[1]):
                            for end in (a, b):
                                r.expect(any(np.hypot(*(np.array(x) - end)) < 1e-6 for x in m), "edge-line-end", [i, j], lambda: "%s lacks %s" % (m, end))
        # points and lines
        q = [geo.to_global(p, world) for p in itertools.product((-2.6, -1.31, -.77, -.1, .35, .91, 1.63, 2.4), repeat=2)]
        for i, p in enumerate(q):
            self.location(r, o, every, p, ["grid", i])
            p2 = q[(11 * i + 5) % len(q)]
            want_t, deg = [], False
            for s in every:
                h, dg = s.hits(p, p2)
                want_t += h
                deg = deg or dg
            if deg or any(min(abs(t), abs(t - 1)) < 1e-6 for t in want_t) or np.allclose(p, p2):
                continue
            ts = sorted(t for t in want_t if 0 < t < 1)
            ok, m = r.call(o.line_intersection, [p, p2], sub=["line", i])
            if not ok:
                continue
            e = p2 - p
            got = sorted((np.array(x) - p).dot(e) / e.dot(e) for x in m)
            r.expect(all(min(abs(s.margin(np.array(x))) for s in every) < 1e-6 and seg_dist(p, p2, np.array(x)) < 1e-6 for x in m), "line-extra", [i], "%s" % m)
            r.expect(len(got) == 0 if not ts else len(got) > 0 and abs(got[0] - ts[0]) < 1e-6 and abs(got[-1] - ts[-1]) < 1e-6, "line", [i],
                     lambda: "at parameters %s expected %s" % (got, ts))

    def location(self, r, o, every, x, sub):
        ms = [s.margin(x) for s in every]
        if min(abs(m) for m in ms) < 1e-7 and min(ms) > -1e-6:
            return
        want = -1 if min(ms) < -1e-7 else 1
        if want < 0 and any(abs(m) < 1e-7 for m in ms):
            return
        ok, g = r.call(o.point_location, x, sub=sub)
        if ok:
            r.expect(np.sign(g) == want, "location", sub, lambda: "%s at %s, margins %s" % (g, x, ms))


CHECKS = [Combination()]
