"""Admissible kernels and starshaped hulls with specified kernel points, against their definitions."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import NAMED, AXES, G, O, poly, ell
from ..scenes import SHAPES, build, reference, sh
from utils import Cone

POSES = geo.POSES


def ray_state(verts, x, d):
    """+1: the ray from x along each direction d misses the polygon, -1: it enters its interior, 0: too close to call."""
    v = np.asarray(verts, float)
    w = np.roll(v, -1, axis=0)
    d = np.asarray(d, float)
    d = d / np.hypot(d[:, 0], d[:, 1])[:, None]
    rv, rw = v - x, w - x
    cv = d[:, None, 0] * rv[None, :, 1] - d[:, None, 1] * rv[None, :, 0]       # signed distance of vertices to the line
    cw = np.roll(cv, -1, axis=1)
    tv = d[:, None, 0] * rv[None, :, 0] + d[:, None, 1] * rv[None, :, 1]
    tw = np.roll(tv, -1, axis=1)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = tv + (tw - tv) * cv / (cv - cw)
    crossing = (cv * cw < 0) & (t > 0)
    close = ((np.abs(cv) < 1e-6) & (tv > -1e-6)).any(axis=1)
    return np.where(close, 0, np.where(crossing.any(axis=1), -1, 1))


def shape_list(tier, step=2):
    out = [["lat", [list(v) for v in p], 0] for p in geo.polys("quick")[:: 1 if tier == "thorough" else step]]
    if tier == "thorough":
        out += [["lat", [list(v) for v in p], 0] for p in geo.polys("thorough")[528::6]]
    out += [[n, [list(v) for v in p], pi] for n, p in NAMED.items() for pi in (0, 3, 4)]
    out += [["ell", list(a), pi] for a in AXES for pi in (0, 1, 4)]
    return out


class Admissible(Check):
    ID = "C08"
    RULE = ("every lattice polygon, named non-convex polygons and ellipses (x poses) x every apex point of a grid around and "
            "inside the pockets of the shape x every candidate kernel point of a grid: membership in the returned cone is "
            "compared with the definition (does the ray from the apex pointing away from the candidate enter the shape); "
            "then every ordered pair/triple of scene obstacles x two apexes for the combined region of a cluster")
    ASSUMPTIONS = ("candidates within 1e-6 of a tangent line are not judged", "the apex keeps a distance of 0.02 from the shape")

    def cases(self, tier):
        out = [["one"] + s for s in shape_list(tier)]
        P = [(0, 0), (1.6, .4), (-1.1, 1.5)]
        for k in (2, 3):
            for s in itertools.product("bceALUS" if k == 2 or tier == "thorough" else "beLU", repeat=k):
                out.append(["many", "".join(s), [list(P[i]) for i in range(k)], [.0, .7, -1.9][:k]])
        return out

    def run(self, case, r):
        (self.one if case[0] == "one" else self.many)(case[1:], r)

    def cands(self, c, w):
        off = np.array([.0313, .0717])
        g = [np.array([i * w / 3, j * w / 3]) + c + off for i in range(-4, 5) for j in range(-4, 5)]
        return np.array(g + [c + np.array(q) for q in ((60.3, -31.), (-17., 1e3), (-2e4, -3e3))])

    def one(self, case, r):
        name, v, pi = case
        pose = POSES[pi]
        if name == "ell":
            o = ell(v, pose)
            verts = np.array([geo.to_global(p, pose) for p in geo.ellipse_ring(v, 2000)])
        else:
            ok, o = r.call(poly, v, pose)
            if not ok:
                return
            verts = np.array([geo.to_global(p, pose) for p in v])
        ref = sg.Polygon(verts)
        c, w = (verts.min(axis=0) + verts.max(axis=0)) / 2, max(verts.max(axis=0) - verts.min(axis=0))
        X = [c + np.array([i, j]) * w / 4 + (.0113, -.0271) for i in range(-3, 4) for j in range(-3, 4)]
        K = self.cands(c, w)
        for x in X:
            if ref.distance(sg.Point(*x)) < .02 and not ref.buffer(-.02).contains(sg.Point(*x)):
                continue
            inside = ref.contains(sg.Point(*x))
            sub = np.round(x, 4).tolist()
            ok, cone = r.call(sh.admissible_kernel, o, x, sub=sub)
            if not ok:
                continue
            if inside:
                r.expect(cone is None, "interior-apex", sub, "a cone is returned for an interior point")
                r.outcome("apex inside")
                continue
            circ = np.array([[math.cos(t), math.sin(t)] for t in np.linspace(0, 2 * math.pi, 2000, endpoint=False) + 1e-4])
            st = ray_state(verts, x, circ)
            if not (st == 1).any():
                if not (st == 0).any():
                    r.expect(cone is None, "blocked-apex", sub, "a cone is returned for a point without free direction")
                r.outcome("apex blocked")
                continue
            if not r.expect(cone is not None, "no-cone", sub, "no cone for a point with free directions"):
                continue
            want = ray_state(verts, x, x - K)
            try:
                pol = cone.polygon()
            except Exception as e:
                r.fail("cone-polygon", sub, repr(e))
                continue
            for k, s in zip(K, want):
                if s == 0:
                    continue
                # the shape seen from x may block several separate sectors: between them the cone is conservative
                got = bool(cone.point_in_cone(k))
                r.expect(got == pol.contains(sg.Point(*k)), "polygon-vs-cone", [sub, np.round(k, 4).tolist()], "")
                r.expect(got == (s > 0), "admissible", [sub, np.round(k, 4).tolist()],
                         "kernel point %s: expected %s" % (np.round(k, 4), "admissible" if s > 0 else "not admissible"))
            r.outcome("apex free")

    def many(self, case, r):
        letters, pos, rots = case
        obs = [build(*a) for a in zip(letters, pos, rots)]
        refs = [reference(*a) for a in zip(letters, pos, rots)]
        apex = [np.array(a) for a in ((.1, -3), (-3, .2), (-1.9, 3.1), (2.7, 1.8), (.45, .6))]
        apex = [a for a in apex if all(q.distance(sg.Point(*a)) > .02 for q in refs)]
        K = self.cands(np.array([.2, .4]), 4.)
        cones = {}
        for i, a in enumerate(apex):
            for j, o in enumerate(obs):
                ok, cones[i, j] = r.call(sh.admissible_kernel, o, a, sub=[i, j])
        state = {i: np.min([np.where((s := ray_state(np.array(q.exterior.coords)[:-1], a, a - K)) == 0, 0, s) for q in refs], axis=0)
                 for i, a in enumerate(apex)}
        near = {i: np.any([ray_state(np.array(q.exterior.coords)[:-1], a, a - K) == 0 for q in refs], axis=0)
                for i, a in enumerate(apex)}
        for i, i2 in itertools.combinations(range(len(apex)), 2):
            cs = [[cones[q, j] for j in range(len(obs))] for q in (i, i2)]
            if any(c is None for c in cs[0] + cs[1]):
                r.outcome("apex not free")
                continue
            ok, reg = r.call(lambda: Cone.list_intersection(cs[0], same_apex=True).intersection(
                Cone.list_intersection(cs[1], same_apex=True)), sub=[i, i2])
            if not ok:
                continue
            for n, k in enumerate(K):
                if near[i][n] or near[i2][n]:
                    continue
                want = state[i][n] > 0 and state[i2][n] > 0
                got = reg.contains(sg.Point(*k))
                r.expect(got == want, "cluster-admissible", [i, i2, n], "kernel point %s: expected %s" % (k, want))
            r.outcome("cluster region empty=%s" % reg.is_empty)


def tri(c, s, rot=0.):
    a = np.array([[0, s / np.sqrt(3)], [s / 2, -s / (2 * np.sqrt(3))], [-s / 2, -s / (2 * np.sqrt(3))]])
    R = np.array([[np.cos(rot), -np.sin(rot)], [np.sin(rot), np.cos(rot)]])
    return np.asarray(c) + a.dot(R.T)


class StarHull(Check):
    ID = "C09"
    RULE = ("every lattice polygon, named non-convex polygons and ellipses as single obstacle x every kernel of a grid of "
            "equilateral triangles (two sizes) and general-position single points (for the named polygons also wide triangles, pairs of distant points and turned polygons) inside, across and outside the shape; then "
            "obstacle lists of 2 and 3; the returned extension united with the obstacles is compared with the smallest set "
            "starshaped w.r.t. the kernel computed from the definition")
    ASSUMPTIONS = ("areas are compared up to 1e-3 x the size of the set (segments are shrunk by 1e-4 in the implementation)",
                   "single kernel points are claimed only in general position (not collinear with an edge or two vertices)")

    def cases(self, tier):
        out = [["one"] + s for s in shape_list(tier, 4)]
        out += [["wide", n, [list(v) for v in p], 0] for n, p in NAMED.items()]
        rots = range(1, 24) if tier == "thorough" else (2, 9, 17)
        out += [["turn", n, [list(v) for v in p], k] for n, p in NAMED.items() for k in rots]
        P = [(0, 0), (1.1, .4), (-.9, 1.2)]
        for k in (2, 3):
            for s in itertools.product("bpceALUS" if k == 2 or tier == "thorough" else "beAU", repeat=k):
                out.append(["many", "".join(s), [list(P[i]) for i in range(k)], [.0, .7, -1.9][:k]])
        return out

    def run(self, case, r):
        self.deep = False
        if case[0] in ("one", "wide", "turn"):
            _, name, v, pi = case
            pose = POSES[pi] if case[0] != "turn" else [[.3, -.2], pi * np.pi / 12]
            if name == "ell":
                o = ell(v, pose, n_pol=200)
                verts = np.array([geo.to_global(p, pose) for p in geo.ellipse_ring(v, 200)])
            else:
                ok, o = r.call(poly, v, pose)
                if not ok:
                    return
                verts = np.array([geo.to_global(p, pose) for p in v])
            obs, refs = [o], [sg.Polygon(verts)]
        else:
            _, letters, pos, rots = case
            kw = [dict(n_pol=200) if SHAPES[l][0] == "ell" else {} for l in letters]
            obs = [build(*a, **k) for a, k in zip(zip(letters, pos, rots), kw)]
            refs = [reference(*a) for a in zip(letters, pos, rots)]
        b = np.array(geo.union(refs).bounds)
        c, w = (b[:2] + b[2:]) / 2, max(b[2:] - b[:2])
        n = 4 if case[1] not in ("lat",) and len(obs) == 1 else 3
        n = 5 if case[0] == "turn" else n
        C = [c + np.array([i, j]) * w / n + (.0313 * w, .0717 * w) for i in range(-n, n + 1) for j in range(-n, n + 1)]
        for i, q in enumerate(C):
            ks = [(tri(q, .1 * w, 0.), "big"), (tri(q, .01 * w, .3), "small")] if len(obs) > 1 or i % 2 else \
                [(tri(q, .1 * w, .2), "big"), (tri(q, .01 * w), "small")]
            ks += [(np.array([q]), "point")]
            if case[0] == "wide":
                ks = [(tri(q, .4 * w, .2), "wide"), (tri(q, .4 * w, .2 + np.pi / 3), "wide2"),
                      (np.array([q - (.2 * w, .07 * w), q + (.2 * w, .07 * w)]), "pair"),
                      (np.array([q - (-.06 * w, .2 * w), q + (-.06 * w, .2 * w)]), "pair2")]
            if case[0] == "turn":      # the small ones, and turned ones in the other orders
                ks = [(tri(q, .02 * w, .3 + .7 * i), "tiny"), (tri(q, .05 * w, 1.1 * i)[::-1], "mid")]
            for k, nm in ks:
                self.one(obs, refs, k, nm, w, r, [i, nm])

    def one(self, obs, refs, k, nm, w, r, sub):
        K = sg.MultiPoint(k).convex_hull
        ok, h = r.call(sh.kernel_starshaped_hull, obs, k, sub=sub)
        if not ok:
            return
        if len(obs) == 1 and h is not None:
            holes = [] if h.is_empty else [sg.Polygon(i).area for p in getattr(h, "geoms", [h]) for i in p.interiors]
            r.expect(sum(holes) <= 1e-9 * w * w, "hole", sub, lambda: "kernel %s: holes of area %s" % (np.round(k, 4).tolist(), holes))
        fill = lambda g: sg.Polygon(g.exterior) if g.geom_type == "Polygon" else g
        for careful in (False, True):
            want = geo.union([geo.star_hull(q, k, careful) for q in refs], careful)
            got = geo.union(refs + ([h] if h is not None and not h.is_empty else [K] if all(
                q.covers(K) for q in refs) else []), careful)
            miss, extra = fill(want).difference(fill(got)).area, fill(got).difference(fill(want)).area
            tol = 1e-3 * max(1., want.area)
            if miss < tol and extra < tol:
                break
        r.expect(miss < tol and extra < tol, "hull", sub, lambda: "kernel %s: missing area %.4g, excess area %.4g" % (
            np.round(k, 4).tolist(), miss, extra))
        r.outcome("%s kernel %s" % (nm, "inside" if all(q.contains(K) for q in refs) else
                                    "outside" if all(q.disjoint(K) for q in refs) else "across"))


CHECKS = [Admissible(), StarHull()]
