"""Planar primitives in utils/cg.py: predicates, intersections, hulls, cones."""
import itertools
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check

import utils
from utils import cg


def _pts(w, h):
    return [(x, y) for x in range(w) for y in range(h)]


# scale, translation applied to the lattice before it is handed to the code (exact in binary floating point)
XF = [(1., (0., 0.)), (.25, (-3., 2.)), (8., (100., -50.))]


def xf(p, t):
    return np.array([t[0] * p[0] + t[1][0], t[0] * p[1] + t[1][1]])


def exact_line_hit(a, b, c, d):
    """(kind, s, u): lines a+s(b-a), c+u(d-c)."""
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den == 0:
        return None
    s = Fraction((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0]), den)
    u = Fraction((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0]), den)
    return s, u


class Predicates(Check):
    ID = "C23"
    LEVEL = "exploration"
    RULE = ("every ordered quadruple (a,b,c,d) of points of a small integer lattice with a!=b, c!=d, under 3 exact "
            "similarity transforms; non-trivial: the exact rational answer is compared with the returned one")
    ASSUMPTIONS = ("coordinates are exactly representable multiples of 1/4, |coordinate| <= 200",)

    def cases(self, tier):
        w, h = (3, 3) if tier == "quick" else (4, 4)
        P = _pts(w, h)
        return [[list(a), list(b), [w, h]] for a in P for b in P if a != b]

    def run(self, case, r):
        a, b, (w, h) = tuple(case[0]), tuple(case[1]), case[2]
        P = _pts(w, h)
        for c in P:
            for t in XF:
                A, B, C = xf(a, t), xf(b, t), xf(c, t)
                o = geo.sgn(geo.orient(a, b, c))
                got = (bool(utils.is_cw(A, B, C)), bool(utils.is_collinear(A, B, C)), bool(utils.is_ccw(A, B, C)))
                r.expect(got == (o < 0, o == 0, o > 0), "orientation", [c, t], "%s" % (got,))
                v = utils.orientation_val(A, B, C)
                r.expect(geo.sgn(v) == -o, "orientation_val", [c, t], v)
                n = utils.cg.np_orientation_val(np.array([A]), np.array([B]), np.array([C]))
                r.expect(np.array_equal(n, [v]), "np_orientation_val", [c, t], n)
                r.expect(bool(utils.is_between(A, C, B)) == geo.on_segment(a, b, c), "is_between", [c, t], "")
                r.outcome("o%d" % o)
                # constructors of open segments and rays
                if c != a and t[0] == 1.:
                    ry = np.array(utils.ray(A, B, C).coords) if c != b else None
                    if ry is not None:
                        d = C - B
                        e0, e1 = ry[0] - A, ry[-1] - A
                        r.expect(abs(e0[0] * d[1] - e0[1] * d[0]) < 1e-6 and 0 < e0.dot(d) <= .01 * d.dot(d) and
                                 abs(e1[0] * d[1] - e1[1] * d[0]) < 1e-3 and e1.dot(d) > 1e4, "ray", [c], ry.tolist())
            for inv in (False, True):
                for rot in (0, math.pi / 2, -2.):
                    q = np.asarray(utils.affine_transform(np.array(c, float), rotation=rot, translation=[float(a[0]), float(b[1])], inverse=inv), float)
                    pose = [[float(a[0]), float(b[1])], rot]
                    want = geo.to_local(c, pose) if inv else geo.to_global(c, pose)
                    r.expect(np.allclose(q, want, atol=1e-12), "affine_transform", [c, inv, rot], q)
        ln = np.array(utils.line(xf(a, XF[0]), xf(b, XF[0])).coords)
        r.expect(geo.np.allclose(ln[[0, -1]], [a, b], atol=1e-2) and
                 sg.LineString([a, b]).buffer(1e-9).contains(sg.LineString(ln)) and
                 not np.array_equal(ln[0], a) and not np.array_equal(ln[-1], b), "line", "", ln.tolist())
        for c in P:
            for d in P:
                if c == d:
                    continue
                hit = exact_line_hit(a, b, c, d)
                meet = geo.segments_meet(a, b, c, d)
                general = 0 not in (geo.orient(a, b, c), geo.orient(a, b, d), geo.orient(c, d, a), geo.orient(c, d, b))
                for t in XF:
                    A, B, C, D = (xf(p, t) for p in (a, b, c, d))
                    pa, pb, pc, pd = (cg.Point(*p) for p in (A, B, C, D))
                    sub = [c, d, t[0]]
                    want = None if hit is None else A + float(hit[0]) * (B - A)
                    # infinite lines
                    ip = cg.Line(pa, pb).line_intersection(cg.Line(pc, pd))
                    r.expect((ip is None) == (want is None) and (ip is None or np.allclose(ip.xy, want, atol=1e-9)),
                             "line_intersection", sub, ip and ip.xy)
                    # segments
                    w = want if hit is not None and 0 <= hit[0] <= 1 and 0 <= hit[1] <= 1 else None
                    if hit is None or all(v not in (0, 1) for v in hit) or t[0] == 1.:
                        ip = cg.LineSegment(pa, pb).line_segment_intersection(cg.LineSegment(pc, pd))
                        r.expect((ip is None) == (w is None) and (ip is None or np.allclose(ip.xy, w, atol=1e-9)),
                                 "line_segment_intersection", sub, ip and ip.xy)
                    # rays
                    w = want if hit is not None and hit[0] >= 0 and hit[1] >= 0 else None
                    ip = cg.Ray(pa, pb).ray_intersection(cg.Ray(pc, pd))
                    r.expect((ip is None) == (w is None) and (ip is None or np.allclose(ip.xy, w, atol=1e-9)),
                             "ray_intersection", sub, ip and ip.xy)
                    # segment crossing tests (claimed only without collinear triples: ends touching is a convention)
                    if general:
                        r.expect(bool(utils.intersect(A, B, C, D)) == meet, "intersect", sub, "")
                        r.expect(bool(cg.LineSegment(pa, pb).intersects(cg.LineSegment(pc, pd))) == meet,
                                 "Line.intersects", sub, "")
                    # a common point of two closed segments
                    g = utils.get_intersection(A, B, C, D)
                    if not meet:
                        r.expect(g is None, "get_intersection-spurious", sub, g)
                    elif r.expect(g is not None, "get_intersection-missed", sub, ""):
                        r.expect(utils.is_between(A, g, B) and utils.is_between(C, g, D) and
                                 (hit is None or np.allclose(g, want, atol=1e-8)), "get_intersection-point", sub, g)
                r.outcome("meet%d general%d parallel%d" % (meet, general, hit is None))


def exact_hull(pts):
    """Strict ccw hull vertices (monotone chain)."""
    p = sorted(set(pts))
    if len(p) < 3:
        return p
    def half(seq):
        o = []
        for q in seq:
            while len(o) >= 2 and geo.orient(o[-2], o[-1], q) <= 0:
                o.pop()
            o.append(q)
        return o[:-1]
    return half(p) + half(p[::-1])


class ConvexHull(Check):
    ID = "C24"
    LEVEL = "exploration"
    RULE = ("every sequence (order and repetitions included) of 3..4 lattice points, every ordering of every 5-subset, and "
            "every larger subset in 4 orders; non-trivial: at least three points, not all collinear")
    ASSUMPTIONS = ("the points are not all collinear (the hull has an interior)", "coordinates are small integers")

    def cases(self, tier):
        out = []
        n = 9
        for k in (3, 4) if tier == "quick" else (3, 4, 5):
            out += [["seq", k, list(pre)] for pre in itertools.product(range(n), repeat=2)]
        out += [["perm", 5, list(c)] for c in itertools.combinations(range(n), 5)]
        if tier == "thorough":
            out += [["perm", 6, list(c)] for c in itertools.combinations(range(n), 6)]
        out += [["ord", k, list(c)] for k in range(6, 10) for c in itertools.combinations(range(n), k)]
        return out

    def run(self, case, r):
        P = _pts(3, 3)
        kind, k, sel = case
        if kind == "seq":
            seqs = (tuple(sel) + rest for rest in itertools.product(range(9), repeat=k - 2))
        elif kind == "perm":
            seqs = itertools.permutations(sel)
        else:
            seqs = (sel, sel[::-1], sel[1::2] + sel[::2], sel[k // 2:] + sel[:k // 2])
        for s in seqs:
            pts = [P[i] for i in s]
            want = exact_hull(pts)
            if len(want) < 3:
                continue
            ok, got = r.call(utils.convex_hull, np.array(pts, float), sub=list(s), limit=2.)
            r.ok()
            if not ok:
                continue
            got = [tuple(int(v) for v in p) if all(float(v).is_integer() for v in p) else tuple(p) for p in got]
            r.expect(all(p in pts for p in got), "not-input-point", list(s), got)
            # vertices in cyclic order around the hull; points on hull edges may be present, nothing else
            r.expect(set(want) <= set(got), "vertex-missing", list(s), got)
            pol = sg.Polygon(got) if len(got) >= 3 else sg.Polygon()
            r.expect(pol.is_valid and abs(pol.area - sg.Polygon(want).area) < 1e-9, "not-the-hull", list(s), got)
            r.outcome("%d/%d" % (len(want), len(set(pts))))
            if r.sample is None:
                r.sample = {"points": pts, "hull": got}


CHECKS = [Predicates(), ConvexHull()]
