"""Point queries on single obstacles: classification, tangent points, line intersections, frames."""
import itertools
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import NAMED, AXES, G, O, poly, ell, fl, exact_pose

POSES = geo.POSES


def poly_cases(tier, every=1):
    """(name, vertices) of the polygon alphabet."""
    out = [["lat", [list(v) for v in p]] for p in geo.polys(tier)[::every]]
    return out + [[n, [list(v) for v in p]] for n, p in NAMED.items()]


def near_boundary(verts, p, tol):
    return sg.Polygon(verts).exterior.distance(sg.Point(*p)) < tol


class Location(Check):
    ID = "C14"
    RULE = ("every lattice polygon (3x3 lattice, all vertex counts; larger lattices in thorough) plus named non-starshaped "
            "shapes as Polygon and as StarshapedPolygon, and 5 ellipses, x 6 poses x every point of a half-integer query "
            "grid covering the shape with margin; the answer is compared with exact rational point-in-polygon")
    ASSUMPTIONS = ("a point that is exactly on the boundary is claimed only for poses that are exact in floating point "
                   "(no rotation) and for ellipses; rotated poses are judged at points at least 1e-6 away from the boundary",)

    def cases(self, tier):
        out = []
        for n, p in poly_cases(tier):
            star = len(geo.kernel_exact([tuple(v) for v in p])) > 2
            for pi in range(len(POSES)) if len(p) < 6 or tier == "thorough" else (0, 2, 4):
                for s in ((0, 1) if star else (0,)):
                    out.append(["poly", p, s, pi])
        for a in AXES:
            for pi in range(len(POSES)):
                out.append(["ell", list(a), pi])
        return out

    def query(self, o, want, p, pose, r, sub, exact):
        for fr, q in ((O, fl(p)), (G, geo.to_global(fl(p), pose))):
            if want == 0 and not exact and fr is G:
                continue
            loc = o.point_location(q, fr) if fr is O else o.point_location(q)
            got = geo.sgn(loc) if abs(loc) > 1e-9 else 0
            tri = (bool(o.interior_point(q, fr)), bool(o.boundary_point(q, fr)), bool(o.exterior_point(q, fr)))
            if want == 0:
                r.expect(got == 0 and tri[1], "boundary", [sub, fr.name], "location %s %s" % (loc, tri))
            else:
                r.expect(got == want and tri == (want < 0, False, want > 0), "location", [sub, fr.name],
                         "want %d got %s %s" % (want, loc, tri))
        r.outcome("loc%d" % want)

    def run(self, case, r):
        if case[0] == "poly":
            _, v, star, pi = case
            pose = POSES[pi]
            ok, o = r.call(poly, v, pose, bool(star))
            if not ok:
                return
            vt = [tuple(x) for x in v]
            X, Y = max(x for x, _ in vt), max(y for _, y in vt)
            for p in geo.grid(-1, X + 1, -1, Y + 1, 2) + [(Fraction(1, 3), Fraction(1, 7)), (Fraction(11, 8), Fraction(5, 8))]:
                want = geo.exact_location(vt, p)
                self.query(o, want, p, pose, r, [str(p[0]), str(p[1])], exact_pose(pose))
        else:
            _, a, pi = case
            pose = POSES[pi]
            o = ell(a, pose)
            for i in range(-12, 13):
                for j in range(-12, 13):
                    p = (Fraction(i, 8) * Fraction(a[0]), Fraction(j, 8) * Fraction(a[1]))
                    want = geo.sgn(i * i + j * j - 64)
                    self.query(o, want, p, pose, r, [i, j], exact_pose(pose) and (i == 0 or j == 0))
            # boundary points of an ellipse are recognised up to rounding
            for k in range(48):
                p = np.array(a) * (math.cos(k * math.pi / 24 + .01), math.sin(k * math.pi / 24 + .01))
                for fr, q in ((O, p), (G, geo.to_global(p, pose))):
                    ok, b = r.call(o.boundary_point, q, fr, sub=["ring", k, fr.name])
                    r.expect(not ok or b, "boundary", ["ring", k, fr.name], "")


def shadow(vt, x):
    """Directions from x sorted; returns (blocked?, free sector midpoints, bounding tangent directions) or None if x is
    within a degenerate configuration.  Judged with segments on the exact lattice polygon."""
    dirs = sorted({math.atan2(v[1] - x[1], v[0] - x[0]) for v in vt})
    # merge numerically equal directions
    u = []
    for d in dirs:
        if not u or d - u[-1] > 1e-9:
            u.append(d)
    if len(u) > 1 and u[0] + 2 * math.pi - u[-1] < 1e-9:
        u.pop()
    n = len(u)
    free = []
    for i in range(n):
        a, b = u[i], u[(i + 1) % n]
        if b <= a:
            b += 2 * math.pi
        m = (a + b) / 2
        far = (x[0] + 1e3 * math.cos(m), x[1] + 1e3 * math.sin(m))
        hit = any(segments_cross(x, far, vt[k - 1], vt[k]) for k in range(len(vt)))
        if not hit:
            free.append((a, b))
    return u, free


def segments_cross(a, b, c, d):
    o1, o2 = geo.orient(a, b, c), geo.orient(a, b, d)
    o3, o4 = geo.orient(c, d, a), geo.orient(c, d, b)
    return (o1 > 0) != (o2 > 0) and (o3 > 0) != (o4 > 0)


class Tangents(Check):
    ID = "C15"
    RULE = ("every polygon of the alphabet (and ellipses) x poses x query grid (half-integer points around and inside, "
            "extension lines of edges included), in all four input/output frame combinations; oracle: the angular shadow of "
            "the shape computed sector by sector")
    ASSUMPTIONS = ("query points exactly on the boundary are not claimed",
                   "a point whose only escape is a single grazing direction is not claimed")

    def cases(self, tier):
        out = []
        for n, p in poly_cases(tier):
            star = len(geo.kernel_exact([tuple(v) for v in p])) > 2
            pis = range(len(POSES)) if n != "lat" else ((0, 4) if tier == "quick" else (0, 3, 4))
            out += [["poly", p, s, pi] for pi in pis for s in ((0, 1) if star else (0,))]
        out += [["ell", list(a), pi] for a in AXES for pi in range(len(POSES))]
        return out

    def run(self, case, r):
        if case[0] == "poly":
            _, v, star, pi = case
            pose = POSES[pi]
            ok, o = r.call(poly, v, pose, bool(star))
            if not ok:
                return
            vt = [tuple(map(float, x)) for x in v]
            vi = [tuple(x) for x in v]
            X, Y = max(x for x, _ in vi), max(y for _, y in vi)
            pts = geo.grid(-2, X + 2, -2, Y + 2, 2) if len(v) > 6 or X > 2 else geo.grid(-1, X + 1, -1, Y + 1, 2)
            pts += [(Fraction(-7, 8), Fraction(17, 8)), (Fraction(13, 8), Fraction(5, 8)), (Fraction(200), Fraction(-31))]
            for p in pts:
                loc = geo.exact_location(vi, p)
                if loc == 0:
                    continue
                x = (float(p[0]), float(p[1]))
                sub = [str(p[0]), str(p[1])]
                for fi in (O, G):
                    for fo in (O, G):
                        q = fl(p) if fi is O else geo.to_global(fl(p), pose)
                        ok, tps = r.call(o.tangent_points, q, fi, fo, sub=sub)
                        if not ok:
                            return
                        tl = [np.asarray(t, float) if fo is O else geo.to_local(t, pose) for t in tps]
                        self.judge(vt, x, loc, tl, r, sub + [fi.name, fo.name])
                ok, tps = r.call(o.tangent_points, geo.to_global(fl(p), pose), sub=sub)
                if ok:
                    self.judge(vt, x, loc, [geo.to_local(t, pose) for t in tps], r, sub + ["default"])
        else:
            _, a, pi = case
            pose = POSES[pi]
            o = ell(a, pose)
            xs = [-3., -1.5, -1.001, -1., -1 + 1e-7, -.6, -1e-3, 0., .3, 1 - 1e-6, 1., 1 + 1e-7, 1 + 1e-5, 1.0001, 1.2, 2., 30.]
            for sx in xs:
                for sy in xs:
                    x = np.array([sx * a[0], sy * a[1]])
                    d2 = sx * sx + sy * sy
                    if abs(d2 - 1) < 1e-9:
                        continue
                    for fi in (O, G):
                        for fo in (O, G):
                            if abs(d2 - 1) < 1e-6 and fi is G:
                                continue
                            q = x if fi is O else geo.to_global(x, pose)
                            sub = [sx, sy, fi.name, fo.name]
                            ok, tps = r.call(o.tangent_points, q, fi, fo, sub=sub)
                            if not ok:
                                return
                            if d2 < 1:
                                r.expect(len(tps) == 0, "interior-has-tangents", sub, tps)
                                continue
                            if not r.expect(len(tps) == 2, "no-tangents", sub, tps):
                                continue
                            t = [np.asarray(t, float) if fo is O else geo.to_local(t, pose) for t in tps]
                            on = [abs((t[i] / a).dot(t[i] / a) - 1) < 1e-4 for i in range(2)]
                            # the tangent at t passes through x
                            tan = [abs((t[i] / a).dot(x / a) - 1) < 1e-4 * max(1., abs(sx), abs(sy)) for i in range(2)]
                            # rounding: x slightly off (global input) moves tangent points by sqrt; scale tolerance
                            gap = np.hypot(*((t[0] - t[1]) / a))
                            want_gap = 2 * math.sqrt(d2 - 1) / math.sqrt(d2)
                            okk = all(on) and all(tan) and abs(gap - want_gap) < 1e-3
                            r.expect(okk, "not-tangent", sub, lambda: "%s on=%s tan=%s gap=%g want %g" % (t, on, tan, gap, want_gap))
                            if want_gap > 1e-2:
                                o3 = geo.orient(x, t[0], t[1])
                                r.expect(o3 < 0, "order", sub, "%s" % t)
                    r.outcome("ext%d" % (d2 > 1))

    def judge(self, vt, x, loc, tps, r, sub):
        if loc < 0:
            r.expect(len(tps) == 0, "interior-has-tangents", sub, tps)
            r.outcome("interior")
            return
        u, free = shadow(vt, x)
        if not free:
            core = sg.Polygon(vt).buffer(-1e-6)
            if any(not sg.LineString([x, (x[0] + 1e3 * math.cos(d), x[1] + 1e3 * math.sin(d))]).intersects(core) for d in u):
                r.outcome("single grazing escape (not claimed)")
                return
            r.expect(len(tps) == 0, "blocked-has-tangents", sub, tps)
            r.outcome("blocked")
            return
        if not r.expect(len(tps) == 2, "no-tangents", sub, tps):
            return
        # merge the free sectors into one arc (the shape is connected)
        starts = {round(a, 7) for a, b in free}
        lo = [a for a, b in free if not any(abs((b2 - a + math.pi) % (2 * math.pi) - math.pi) < 1e-7 for _, b2 in free)]
        hi = [b for a, b in free if not any(abs((a2 - b + math.pi) % (2 * math.pi) - math.pi) < 1e-7 for a2, _ in free)]
        if len(lo) != 1 or len(hi) != 1:      # free arc touched by a grazing vertex: judge by membership only
            r.outcome("grazed")
            lo, hi = [a for a, _ in free], [b for _, b in free]
        ang = [math.atan2(t[1] - x[1], t[0] - x[0]) for t in tps]
        same = lambda p, q: abs((p - q + math.pi) % (2 * math.pi) - math.pi) < 1e-6
        # the first tangent point is where, turning counter-clockwise, the shape ends and free space begins
        r.expect(any(same(ang[0], l) for l in lo) and any(same(ang[1], h) for h in hi), "not-the-tangents", sub,
                 lambda: "angles %s want %s %s" % (np.round(ang, 4).tolist(), np.round(lo, 4).tolist(), np.round(hi, 4).tolist()))
        r.expect(all(sg.Polygon(vt).distance(sg.Point(*t)) < 1e-6 for t in tps), "tangent-off-shape", sub, tps)
        r.outcome("free")


CHECKS = [Location(), Tangents()]


def segment_hits(verts, a, b):
    """Exact intersection of segment ab with the polygon boundary: (isolated points, overlap intervals as parameter
    pairs along ab).  Fractions throughout."""
    iso, ov = set(), []
    n = len(verts)
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    par = lambda p: Fraction((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L
    for i in range(n):
        c, d = verts[i - 1], verts[i]
        den = dx * (d[1] - c[1]) - dy * (d[0] - c[0])
        if den == 0:
            if geo.orient(a, b, c) != 0:
                continue
            s0, s1 = sorted((par(c), par(d)))
            s0, s1 = max(s0, Fraction(0)), min(s1, Fraction(1))
            if s0 < s1:
                ov.append((s0, s1))
            elif s0 == s1:
                iso.add(s0)
            continue
        s = Fraction((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
        u = Fraction((c[0] - a[0]) * dy - (c[1] - a[1]) * dx) / den
        if 0 <= s <= 1 and 0 <= u <= 1:
            iso.add(s)
    merged = []
    for s0, s1 in sorted(ov):
        if merged and s0 <= merged[-1][1]:
            merged[-1] = (merged[-1][0], max(s1, merged[-1][1]))
        else:
            merged.append((s0, s1))
    iso = {s for s in iso if not any(s0 <= s <= s1 for s0, s1 in merged)}
    return iso, merged


class LineHits(Check):
    ID = "C16"
    RULE = ("every polygon of the alphabet x every segment between two points of an integer/half-integer frame around and "
            "inside it (axis-parallel, through vertices, along edges, ending on the boundary), and ellipses x all segments "
            "of a grid incl. vertical and near-vertical ones, x poses x frames; oracle: exact rational intersection")
    ASSUMPTIONS = ("where the segment runs along an edge, the ends of the common stretch are the answer (further points of "
                   "the stretch are tolerated)",
                   "grazing contacts (through a vertex, along an edge, ends on the boundary) are claimed only for poses that "
                   "are exact in floating point")

    def cases(self, tier):
        out = []
        for n, p in poly_cases(tier):
            star = len(geo.kernel_exact([tuple(v) for v in p])) > 2
            out += [["poly", p, int(star and pi != 2), pi] for pi in (0, 2, 4)]
        out += [["ell", list(a), pi] for a in AXES for pi in range(len(POSES))]
        return out

    def run(self, case, r):
        if case[0] == "poly":
            self.poly(case, r)
        else:
            self.ell(case, r)

    def poly(self, case, r):
        _, v, star, pi = case
        pose = POSES[pi]
        ok, o = r.call(poly, v, pose, bool(star))
        if not ok:
            return
        vi = [tuple(x) for x in v]
        X, Y = max(x for x, _ in vi), max(y for _, y in vi)
        if X <= 2 and Y <= 2:
            E = [(-1, -1), (-1, 0), (-1, 1), (-1, 2), (0, -1), (1, -1), (2, -1), (3, 0), (3, 1), (1, 3), (2, 3), (3, 3), (0, 0),
                 (1, 1), (2, 2), (2, 0), (0, 2), (1, 0), (0, 1), (Fraction(1, 2), Fraction(1, 2)), (Fraction(3, 2), Fraction(1, 2)),
                 (Fraction(1, 4), Fraction(-3, 4)), (Fraction(9, 4), Fraction(11, 4))]
        else:
            E = [(i, j) for i in range(-1, X + 2) for j in range(-1, Y + 2) if (i + j) % 2 == 0 or i in (-1, X + 1)] + \
                [(Fraction(1, 2), Fraction(1, 2)), (Fraction(5, 2), Fraction(-1, 2))]
        for a, b in itertools.combinations(E, 2):
            for p, q in ((a, b), (b, a)) if pi == 0 else ((a, b),):
                iso, ov = segment_hits(vi, p, q)
                grazing = bool(ov) or any(geo.orient(p, q, w) == 0 for w in vi) or \
                    0 in (geo.exact_location(vi, p), geo.exact_location(vi, q))
                if grazing and not exact_pose(pose):
                    continue
                P, Q = fl(p), fl(q)
                must = [P + float(s) * (Q - P) for s in iso] + [P + float(s) * (Q - P) for iv in ov for s in iv]
                for fi, fo in ((O, O), (G, G), (O, G), (G, O)) if pi else ((O, O), (G, O)):
                    ln = [P, Q] if fi is O else [geo.to_global(P, pose), geo.to_global(Q, pose)]
                    sub = [[str(z) for z in p + q], fi.name, fo.name]
                    ok, got = r.call(o.line_intersection, ln, fi, fo, sub=sub)
                    if not ok:
                        return
                    if got is None:
                        r.fail("none", sub, "returned None")
                        return
                    g = [np.asarray(t, float) if fo is O else geo.to_local(t, pose) for t in got]
                    miss = [m for m in must if not any(np.hypot(*(m - t)) < 1e-7 for t in g)]
                    r.expect(not miss, "missing", sub, lambda: "missing %s in %s" % (miss, g), nontrivial=bool(must))
                    for t in g:
                        if any(np.hypot(*(m - t)) < 1e-7 for m in must):
                            continue
                        s = (t - P).dot(Q - P) / (Q - P).dot(Q - P)
                        on = any(float(a0) - 1e-7 <= s <= float(a1) + 1e-7 for a0, a1 in ov) and \
                            np.hypot(*(P + s * (Q - P) - t)) < 1e-7
                        r.expect(on, "spurious", sub, "%s" % t)
                r.outcome("points%d overlaps%d" % (len(iso), len(ov)))

    def ell(self, case, r):
        _, a, pi = case
        pose = POSES[pi]
        a = np.array(a)
        o = ell(a, pose)
        g = [-5., -1.7, -1.25, -.7, 0., .4, .70001, 1.25, 4.]
        E = [np.array([x, y]) for x in g for y in g]
        for i, j in itertools.combinations(range(len(E)), 2):
            if (i * 7 + j) % 2 and pi not in (0, 4):
                continue
            u0, u1 = E[i], E[j]
            P, Q = u0 * a, u1 * a
            d = u1 - u0
            A, B, C = d.dot(d), 2 * u0.dot(d), u0.dot(u0) - 1
            disc = B * B - 4 * A * C
            if abs(disc) < 1e-2 * A or abs(C) < 1e-3 or abs(u1.dot(u1) - 1) < 1e-3:
                continue
            must = []
            if disc > 0:
                must = [P + s * (Q - P) for s in ((-B - math.sqrt(disc)) / (2 * A), (-B + math.sqrt(disc)) / (2 * A)) if 0 < s < 1]
            for fi, fo in ((O, O), (G, G), (O, G), (G, O)):
                for rev in (False, True):
                    ln = [P, Q] if fi is O else [geo.to_global(P, pose), geo.to_global(Q, pose)]
                    if rev:
                        ln = ln[::-1]
                    sub = [u0.tolist(), u1.tolist(), fi.name, fo.name, rev]
                    ok, got = r.call(o.line_intersection, ln, fi, fo, sub=sub)
                    if not ok:
                        return
                    g2 = [np.asarray(t, float) if fo is O else geo.to_local(t, pose) for t in got]
                    tol = 1e-6 * max(1., np.abs(P).max(), np.abs(Q).max())
                    miss = [m for m in must if not any(np.hypot(*(m - t)) < tol for t in g2)]
                    extra = [t for t in g2 if not any(np.hypot(*(m - t)) < tol for m in must)]
                    r.expect(not miss and not extra, "ellipse", sub, lambda: "got %s want %s" % (g2, must), nontrivial=bool(must))
            r.outcome("points%d" % len(must))
        if pose is None or (np.all(np.array(pose[0]) == 0) and pose[1] == 0):
            self.touch(a, o, r)

    def touch(self, a, o, r):
        """Lines touching the ellipse in one point, where this can be told exactly."""
        if any(np.frexp(v)[0] != .5 for v in a):
            return
        for ax, sgn, l0, l1 in itertools.product((0, 1), (-1., 1.), (-4., -1., 0., .5), (-.5, 0., 1., 2.)):
            if l0 == l1:
                continue
            p = np.array([sgn, sgn]) * a
            ln = []
            for l in (l0, l1):
                q = p.copy()
                q[1 - ax] = l * a[1 - ax]
                ln.append(q)
            t = -l0 / (l1 - l0)
            at = p.copy()
            at[1 - ax] = 0.
            for rev in (False, True):
                ok, got = r.call(o.line_intersection, ln[::-1] if rev else ln, sub=["touch", ax, sgn, l0, l1, rev])
                if ok:
                    r.expect(all(np.hypot(*(q - at)) < 1e-6 for q in got) and (len(got) > 0) == (0 <= t <= 1), "touching-line", [ax, sgn, l0, l1, rev],
                             lambda: "%s, touches in %s at parameter %s" % (got, at, t))


CHECKS = [Location(), Tangents(), LineHits()]
