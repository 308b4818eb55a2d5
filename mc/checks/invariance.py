"""cluster_and_starify answers depend on the scene only (C29)."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo, scenes
from ..core import Check
from ..obs import Ellipse, Frame, Polygon, StarshapedPolygon, mm
from ..scenes import OPTS, SHAPES, build, points, reference, sh

SHIFT = np.array([137.25, -58.5])
TOL = 1e-5


def warm(o, x):
    """Queries and changes that leave the shape and pose of the obstacle as they are."""
    o.polygon()
    o.polygon(Frame.OBSTACLE)
    o.is_convex()
    o.is_starshaped()
    o.point_location(x)
    o.tangent_points(x)
    o.line_intersection([x, o.pos()])
    o.extreme_points()
    if hasattr(o, "kernel"):
        k = o.kernel()
        o.set_xr(np.array(k.representative_point().coords[0]), input_frame=Frame.GLOBAL)
        o.normal(x)
        o.boundary_mapping(x)


def in_place(letter, pos, rot):
    """The obstacle given by global coordinates (no motion model)."""
    kind, d = SHAPES[letter]
    if kind == "ell":
        return build(letter, pos, rot)
    v = [list(geo.to_global(p, [pos, rot])) for p in d]
    return (StarshapedPolygon if kind == "star" else Polygon)(v)


def elsewhere(letter, pos, rot, x):
    o = build(letter, (-40., 7.), 2.2)
    warm(o, np.array([3., -90.]))
    m = mm.Static(list(pos), rot)
    o.set_motion_model(m)
    return o


def relocated(letter, pos, rot, x):
    kind, d = SHAPES[letter]
    m = mm.Static([5., -5.], -1.)
    o = Ellipse(list(d), motion_model=m) if kind == "ell" else (StarshapedPolygon if kind == "star" else Polygon)([list(v) for v in d], motion_model=m)
    warm(o, np.array([3., -90.]))
    m.set_pos(list(pos))
    o.polygon()
    m.set_rot(rot)
    return o


class Invariance(Check):
    ID = "C29"
    RULE = ("scenes of 1-3 obstacles (4 in thorough) x free robot/goal pairs x options: the result for every permutation of the obstacle list, for the translated scene, "
            "for obstacles built in place / moved there after use / queried before, for other identities and for a repeated call is compared with the result for freshly "
            "built obstacles; inputs are compared before and after")
    ASSUMPTIONS = ("robot, goal and selected centre are not collinear (the library then perturbs at random)", "the kernel triangles have a side length of at least 1e-6", "compared up to 1e-5 of area and length")

    def cases(self, tier):
        out = []
        sc = scenes.scene_cases(tier)
        for i, c in enumerate(sc):
            if tier == "quick" and i % 2 and len(c[0]) < 4:
                continue
            if tier == "thorough" and i % 4 and len(c[0]) < 4:
                continue
            out.append([c[0], c[1], c[2], i])
        return out

    def solve(self, obs, x, g, o):
        np.random.seed(0)
        res = sh.cluster_and_starify(obs, x, g, .2, **o)
        idx = {id(q): i for i, q in enumerate(obs)}
        parts = {}
        for c in res[0]:
            key = tuple(sorted(idx[id(q)] for q in c.obstacles))
            parts[key] = None if not res[2] else (c.cluster_obstacle.polygon(), np.array(c.kernel_points), np.array(c.cluster_obstacle.xr()))
        return res[2], res[3], parts

    def run(self, case, r):
        letters, pos, rots, salt = case
        args = list(zip(letters, pos, rots))
        refs = [reference(*a) for a in args]
        xs, gs = points(refs)
        pairs = [(x, g) for x in xs for g in gs if x != g]
        opts = list(OPTS)
        for n, (x, g) in enumerate(pairs[salt % 3::3][:4]):
            o = {k: v for k, v in OPTS[opts[(salt + n) % len(opts)]].items() if k != "return_history"}
            self.pair(args, np.array(x, float), np.array(g, float), o, salt + n, r, [n])

    def pair(self, args, x, g, o, salt, r, sub):
        obs = [build(*a) for a in args]
        ok, base = r.call(self.solve, obs, x, g, o, sub=sub)
        if not ok:
            return
        if base[0]:
            for p, k, xr in base[2].values():
                c = np.mean(k, axis=0)
                if abs((g - x)[0] * (c - x)[1] - (g - x)[1] * (c - x)[0]) < 1e-3:
                    r.outcome("nearly collinear")
                    return
                if np.hypot(*(k[0] - k[1])) < 1e-6:
                    r.outcome("kernel triangle degenerate")
                    return
        n = len(args)
        ident = list(range(n))
        variants = [("repeat", lambda: obs, ident, 0 * SHIFT)]
        for p in itertools.permutations(ident):
            if list(p) != ident and (n < 4 or p in ((3, 2, 1, 0), (1, 0, 3, 2), (2, 3, 0, 1))):
                variants.append(("permuted", lambda p=p: [build(*args[i]) for i in p], list(p), 0 * SHIFT))
        variants.append(("translated", lambda: [build(l, list(np.array(q) + SHIFT), t) for l, q, t in args], ident, SHIFT))
        variants.append(("in-place", lambda: [in_place(*a) for a in args], ident, 0 * SHIFT))
        variants.append(("queried", lambda: [(warm(q, x), q)[1] for q in [build(*a) for a in args]], ident, 0 * SHIFT))
        variants.append(("relocated", lambda: [relocated(*a, x) for a in args], ident, 0 * SHIFT))
        variants.append(("new motion", lambda: [elsewhere(*a, x) for a in args], ident, 0 * SHIFT))
        def other_ids():
            for _ in range(7):
                build("b", (0, 0), 0)
            q = [build(*args[i]) for i in ident[::-1]]
            return q[::-1]
        variants.append(("identities", other_ids, ident, 0 * SHIFT))
        variants.append(("history", lambda: [build(*a) for a in args], ident, 0 * SHIFT))
        for name, mk, perm, shift in variants:
            s = sub + [name, perm]
            ok, q = r.call(mk, sub=s)
            if not ok:
                continue
            xx, gg = x + shift, g + shift
            state = [(np.array(b.pos()), float(b.rot()), b.polygon(Frame.OBSTACLE).wkb, b.id(), str(b)) for b in q]
            lst = list(q)
            ok, res = r.call(self.solve, q, xx, gg, dict(o, return_history=True, max_iterations=1000) if name == "history" else o, sub=s)
            r.add("executions")
            if not ok:
                continue
            r.expect(np.array_equal(xx, x + shift) and np.array_equal(gg, g + shift), "query-points-changed", s, "%s %s" % (xx, gg))
            r.expect(len(q) == len(lst) and all(a is b for a, b in zip(q, lst)), "list-changed", s, "")
            for b, st in zip(q, state):
                r.expect(np.array_equal(b.pos(), st[0]) and b.rot() == st[1] and b.polygon(Frame.OBSTACLE).wkb == st[2] and b.id() == st[3] and str(b) == st[4],
                         "obstacle-changed", s, "")
            flag, it, parts = res
            parts = {tuple(sorted(perm[i] for i in k)): v for k, v in parts.items()}
            if not r.expect(flag == base[0] and it == base[1], "flag", s, lambda: "flag %s iterations %s, expected %s %s" % (flag, it, base[0], base[1])):
                continue
            if not r.expect(sorted(parts) == sorted(base[2]), "partition", s, lambda: "%s expected %s" % (sorted(parts), sorted(base[2]))):
                continue
            if not flag:
                continue
            for k, (p, kp, xr) in parts.items():
                p0, kp0, xr0 = base[2][k]
                p = shapely.affinity.translate(p, *(-shift))
                r.expect(np.allclose(kp - shift, kp0, atol=TOL) and np.allclose(xr - shift, xr0, atol=TOL), "kernel-points", s,
                         lambda: "cluster %s: %s expected %s" % (k, (kp - shift).tolist(), kp0.tolist()))
                r.expect(p.symmetric_difference(p0).area < TOL, "geometry", s, lambda: "cluster %s: area %g expected %g" % (k, p.area, p0.area))
        r.outcome("n=%d flag=%d clusters=%d" % (n, base[0], len(base[2])))


CHECKS = [Invariance()]
