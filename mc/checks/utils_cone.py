"""Cones (utils/cg.py): membership, polygon representation, intersections."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check

from utils import cg

D8 = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
D16 = [(1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1),
       (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2), (1, -1), (2, -1)]
D6 = [(1, 0), (1, 2), (-1, 1), (-1, 0), (-1, -2), (2, -1)]      # contains one antipodal pair
APEXES = [(0., 0.), (3., -2.), (-250.5, 40.)]


def in_cone(d1, d2, v):
    """Exact: direction v strictly inside (1), on the rim (0) or outside (-1) the cone swept ccw from d1 to d2."""
    o12 = geo.orient((0, 0), d1, d2)
    o1, o2 = geo.orient((0, 0), d1, v), geo.orient((0, 0), d2, v)
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    if (o1 == 0 and dot(d1, v) > 0) or (o2 == 0 and dot(d2, v) > 0):
        return 0
    if o12 > 0:
        return 1 if o1 > 0 and o2 < 0 else -1
    if o12 == 0:                       # antipodal: half plane left of d1
        return 1 if o1 > 0 else -1
    return -1 if o2 > 0 and o1 < 0 else 1


def sectors(dirs):
    """One direction strictly inside every sector between neighbouring directions of the alphabet."""
    n = len(dirs)
    out = []
    for i in range(n):
        a, b = dirs[i], dirs[(i + 1) % n]
        la, lb = math.hypot(*a), math.hypot(*b)
        m = np.array([a[0] / la + b[0] / lb, a[1] / la + b[1] / lb])
        if np.hypot(*m) < 1e-9:
            m = np.array([-a[1], a[0]], float)
        if geo.orient((0, 0), a, b) < 0:
            m = -m
        out.append(tuple(m / np.hypot(*m)))
    return out


def bad_area(got, apex, dirs, member):
    """First sector whose sample points disagree with `member`, else None.  Points at three radii."""
    for v in sectors(dirs):
        m = member(v)
        if m == 0:
            continue
        for rad in (.05, 7., 4e5):
            p = sg.Point(apex[0] + rad * v[0], apex[1] + rad * v[1])
            if got.contains(p) != (m > 0):
                return [np.round(v, 3).tolist(), rad, bool(got.contains(p))]
    return None


class Cones(Check):
    ID = "C10"
    LEVEL = "exploration"
    RULE = ("every cone over 16 directions x 3 apexes (membership, polygon); every ordered pair of such cones with a common "
            "apex, and with two different apexes; cones with a ray to a corner of the bounding box; every ordered triple over 6 directions (8 in thorough) for list "
            "intersection; oracle: exact sector-wise set algebra")
    ASSUMPTIONS = ("the two bounding directions of a cone differ (a cone with two equal directions is degenerate)",
                   "agreement is judged at points strictly inside the sectors, never on bounding rays")

    def cases(self, tier):
        out = [["one", a, list(d1), list(d2), s] for a in range(3) for d1 in D16 for d2 in D16 if d1 != d2
               for s in ([1, 1], [1, 3], [.01, .5])]
        out += [["pair", a, list(d1), list(d2)] for a in (range(1, 2) if tier == "quick" else range(3))
                for d1 in D16 for d2 in D16 if d1 != d2]
        # rays that meet the corners of the box which represents the plane
        big = [(k * a, k * b) for k in (1, 64, 1000) for a, b in ((-2, 2), (.1, -3), (2.4, .7), (.3, .3), (-1.7, -.9))]
        out += [["corner", [float(q) for q in a], j, k] for a in big for j in range(4) for k in range(len(D16) + 3)]
        D = D6 if tier == "quick" else D8
        out += [["triple", [list(d) for d in D], list(d1), list(d2), list(e1), list(e2)]
                for d1 in D for d2 in D if d1 != d2 for e1 in D for e2 in D if e1 != e2]
        return out

    def run(self, case, r):
        if case[0] == "one":
            _, a, d1, d2, s = case
            apex = np.array(APEXES[a])
            c = cg.Cone(apex, s[0] * np.array(d1, float), s[1] * np.array(d2, float))
            pol = c.polygon()
            r.expect(pol.is_valid and pol.area > 1e3, "polygon-invalid", "", "valid=%s area=%g" % (pol.is_valid, pol.area))
            for v in D16 + sectors(D16):
                m = in_cone(d1, d2, v)
                if m == 0:
                    continue
                for rad in (.05, 7., 4e5):
                    p = apex + rad * np.array(v, float)
                    r.expect(bool(c.point_in_cone(p)) == (m > 0), "point_in_cone", [v, rad], "")
                    r.expect(pol.contains(sg.Point(p)) == (m > 0), "polygon-membership", [v, rad], "")
            r.outcome("convex%d" % (geo.orient((0, 0), d1, d2) > 0))
            return
        if case[0] == "corner":
            _, a, j, k = case
            apex = np.array(a)
            C = [np.array(q, float) * cg.Cone.bb_width - apex for q in ((1, -1), (1, 1), (-1, 1), (-1, -1))]
            e = np.array(D16[k], float) if k < len(D16) else C[(j + k - len(D16) + 1) % 4]
            for sc in (1., 1e-6, 1 / np.hypot(*C[j]), .37):
                for d1, d2 in ((sc * C[j], e), (e, sc * C[j])):
                    if abs(geo.orient((0, 0), d1 / np.hypot(*d1), d2 / np.hypot(*d2))) < 1e-9:
                        continue
                    c = cg.Cone(apex, d1, d2)
                    pol = c.polygon()
                    r.expect(pol.is_valid and pol.area > 1e3, "polygon-invalid", [sc], "valid=%s area=%g" % (pol.is_valid, pol.area))
                    for v in sectors(D16):
                        m = in_cone(d1, d2, v)
                        side = min(abs(geo.orient((0, 0), d / np.hypot(*d), np.array(v, float) / np.hypot(*v))) for d in (d1, d2))
                        if m == 0 or side < 1e-4:
                            continue
                        for rad in (.05, 7., 1e5):
                            p = apex + rad * np.array(v, float)
                            r.expect(pol.contains(sg.Point(p)) == (m > 0), "polygon-membership", [sc, v, rad], "")
            r.outcome("corner")
            return
        if case[0] == "pair":
            _, a, d1, d2 = case
            apex = np.array(APEXES[a])
            c = cg.Cone(apex, np.array(d1, float), np.array(d2, float))
            for e1 in D16:
                for e2 in D16:
                    if e1 == e2:
                        continue
                    o = cg.Cone(apex, 2. * np.array(e1, float), np.array(e2, float))
                    both = lambda v: min(in_cone(d1, d2, v), in_cone(e1, e2, v))
                    n = sum(both(v) > 0 for v in sectors(D16))
                    for same in (True, False):
                        got = c.intersection(o, same_apex=same)
                        b = bad_area(got, apex, D16, both)
                        r.expect(b is None, "intersection", [e1, e2, same], lambda: "sector %s" % b)
                    r.outcome("sectors%d" % n)
            ap2 = apex + np.array([1.5, 2.25])
            for e1, e2 in itertools.permutations(D8, 2):
                o = cg.Cone(ap2, np.array(e1, float), np.array(e2, float))
                got = c.intersection(o)
                got2 = cg.Cone.list_intersection([c, o], same_apex=False)
                for q in (apex + .9 * (ap2 - apex) + np.array([.013, .4]), apex + [.31, -2.17], apex + [-5.3, 1.1],
                          apex + [6.1, 9.7], apex + [1.7, 11.2], apex + [-4.1, -4.9]):
                    ma, mb = in_cone(d1, d2, q - apex), in_cone(e1, e2, q - ap2)
                    if 0 in (ma, mb):
                        continue
                    want = ma > 0 and mb > 0
                    r.expect(got.contains(sg.Point(q)) == want and got2.contains(sg.Point(q)) == want,
                             "two-apex-intersection", [e1, e2, q.tolist()], "")
            return
        _, D, d1, d2, e1, e2 = case
        D = [tuple(d) for d in D]
        apex = np.array(APEXES[1])
        c1, c2 = cg.Cone(apex, np.array(d1, float), np.array(d2, float)), cg.Cone(apex, np.array(e1, float), np.array(e2, float))
        for f1 in D:
            for f2 in D:
                if f1 == f2:
                    continue
                c3 = cg.Cone(apex, np.array(f1, float), np.array(f2, float))
                got = cg.Cone.list_intersection([c1, c2, c3], same_apex=True)
                all3 = lambda v: min(in_cone(d1, d2, v), in_cone(e1, e2, v), in_cone(f1, f2, v))
                b = bad_area(got, apex, D, all3)
                r.expect(b is None, "list_intersection", [f1, f2], lambda: "sector %s" % b)


CHECKS = [Cones()]
