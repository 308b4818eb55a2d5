"""Random generators: every answer the random source may give, from a finite alphabet, with a bounded number of
deviations from a default answer sequence (iterative deviation bounding)."""
import itertools
import math

import numpy as np
import shapely.geometry as sg

from .. import geo
from ..core import Check

import utils


class Source:
    """Stands in for numpy's global random source.  answers: dict position -> alternative index (deviations)."""

    # generic default answers: distinct, unordered, away from 0 and 1
    DEFAULT = [.37, .81, .13, .59, .94, .22, .68, .05, .48, .76, .31, .87, .17, .63, .99, .02]
    ALT = [0., 1e-9, .5, 1 - 1e-9]

    def __init__(self, deviations):
        self.dev = deviations
        self.n = 0
        self.log = []           # number of alternatives at every choice point

    def _pick(self, default, alts):
        i = self.n
        self.n += 1
        self.log.append(len(alts))
        if i in self.dev:
            return alts[self.dev[i]]
        return default

    def _unit(self):
        return self._pick(self.DEFAULT[self.n % len(self.DEFAULT)], self.ALT)

    def _many(self, f, size):
        if size is None:
            return f()
        n = int(np.prod(size))
        return np.array([f() for _ in range(n)]).reshape(size)

    def uniform(self, low=0., high=1., size=None):
        return self._many(lambda: low + (high - low) * self._unit(), size)

    def random(self, size=None):
        return self._many(self._unit, size)

    def rand(self, *size):
        return self._many(self._unit, size if size else None)

    def normal(self, loc=0., scale=1., size=None):
        f = lambda: loc + scale * self._pick([.4, -.7, 1.1, -.2, .9][self.n % 5], [0., -5., 5., -1.])
        return self._many(f, size)

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        vals = list(range(low, high))
        return self._many(lambda: self._pick(vals[self.n % len(vals)], vals), size)

    def shuffle(self, x):
        vals = list(x)
        perms = list(itertools.permutations(range(len(vals)))) if len(vals) <= 4 else \
            [tuple(range(len(vals))), tuple(range(len(vals)))[::-1]] + \
            [tuple(range(k, len(vals))) + tuple(range(k)) for k in range(1, len(vals))]
        p = self._pick(perms[1], perms)
        for i, j in enumerate(p):
            x[i] = vals[j]

    # other entry points to the same draws
    def random_sample(self, size=None):
        return self.random(size)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size if size else None)

    def permutation(self, x):
        x = list(range(x)) if np.isscalar(x) else list(x)
        self.shuffle(x)
        return np.array(x)

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if np.isscalar(a) else list(a)
        if not replace and size is not None:
            self.shuffle(a)
            return np.array(a[:int(np.prod(size))]).reshape(size)
        return self._many(lambda: a[self.randint(len(a))], size)


class Patched:
    NAMES = ("uniform", "random", "rand", "normal", "randint", "shuffle", "random_sample", "standard_normal", "randn", "permutation", "choice")

    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(np.random, n, getattr(self.src, n))

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


class Generators(Check):
    ID = "C25"
    LEVEL = "fault_enumeration"
    RULE = ("each generator call is re-executed for every assignment of at most k deviating answers (extreme and middle "
            "values, every permutation / bit) of the random source, k = 2 quick, 3 thorough; non-trivial: the produced "
            "polygon has positive area")
    ASSUMPTIONS = ("random numbers are drawn from numpy's global source",)

    def cases(self, tier):
        k = 2 if tier == "quick" else 3
        out = []
        for n in (3, 4, 5, 6) if tier == "quick" else (3, 4, 5, 6, 7):
            for box in (None, [2., 2.], [4., 1.], [1., 3.]):
                for first in range(-1, 4 * n):
                    out.append(["convex", n, box, first, k])
        for n in (3, 4, 5, 6):
            for irr, spi in ((0., 0.), (.99, 0.), (0., 1.), (.5, .3), (.99, 1.)):
                for c, rad in (((0., 0.), 1.), ((-2., 5.), .5)):
                    out.append(["star", n, [list(c), rad, irr, spi], k])
        out += [["triangle", k], ["equilateral"], ["badarg"]]
        return out

    def explore(self, fn, k, must=None):
        """All executions with at most k deviations (`must`: position of the first deviation, -1 = none)."""
        def go(dev, last):
            src = Source(dev)
            with Patched(src):
                res = fn()
            if must is None or must < 0 or dev:
                yield dev, res, src
            if len(dev) == k or (must == -1):
                return
            for pos in range(last + 1, len(src.log)):
                if must is not None and not dev and pos != must:
                    continue
                for alt in range(src.log[pos]):
                    yield from go({**dev, pos: alt}, pos)
        yield from go({}, -1)

    def run(self, case, r):
        if case[0] == "convex":
            _, n, box, first, k = case
            bx = box or [1, 1]
            # box semantics: extents of the polygon never exceed the requested box
            for dev, pts, src in self.explore(lambda: r.call(utils.generate_convex_polygon, n, box, sub=first), k, first):
                ok, pts = pts
                r.add("executions")
                if not ok:
                    continue
                p = np.array(pts, float)
                sub = sorted(dev.items())
                if not r.expect(p.shape == (n, 2), "vertex-count", sub, p.tolist()):
                    continue
                area = geo.signed_area(p)
                ext = p.max(axis=0) - p.min(axis=0)
                r.expect(np.all(ext <= np.array(bx, float) + 1e-9), "exceeds-box", sub, ext.tolist(), nontrivial=area > 1e-6)
                r.expect(np.allclose(p.mean(axis=0), 0, atol=1e-9), "not-centred", sub, p.mean(axis=0).tolist())
                turn = [geo.orient(p[i - 2], p[i - 1], p[i]) for i in range(n)]
                hull = sg.MultiPoint(p).convex_hull
                r.expect(area >= -1e-12 and min(turn) >= -1e-9 and abs(hull.area - area) < 1e-8, "not-convex", sub,
                         lambda: "area %g hull %g turns %s" % (area, hull.area, np.round(turn, 4).tolist()))
                r.outcome("n%d verts%d" % (n, len(set(map(tuple, np.round(p, 7))))))
        elif case[0] == "star":
            _, n, (c, rad, irr, spi), k = case
            for dev, pts, src in self.explore(lambda: r.call(utils.generate_star_polygon, tuple(c), rad, irr, spi, n), k):
                ok, pts = pts
                r.add("executions")
                if not ok:
                    continue
                p = np.array(pts, float)
                sub = sorted(dev.items())
                if not r.expect(p.shape == (n, 2), "vertex-count", sub, p.tolist()):
                    continue
                v = p - np.array(c)
                d = np.hypot(v[:, 0], v[:, 1])
                r.expect(np.all(d <= 2 * rad + 1e-9), "radius", sub, d.tolist())
                if np.all(d > 1e-6):
                    ang = np.arctan2(v[:, 1], v[:, 0])
                    step = np.diff(np.append(ang, ang[0]))
                    step = np.mod(step + 1e-9, 2 * math.pi) - 1e-9
                    r.expect((abs(step.sum() - 2 * math.pi) < 1e-6 and np.all(step >= -1e-8)) or np.all(step < 1e-6), "angles-not-one-ccw-turn", sub,
                             step.tolist())
                    mx = 2 * math.pi / n
                    # an angular step is a draw from [(1-irr), (1+irr)] * 2pi/n, normalised by their sum
                    r.expect(np.all(step <= mx * (1 + irr) / (1 - irr) + 1e-6) if irr < 1 else True, "irregularity", sub,
                             step.tolist())
                    r.outcome("n%d maxstep<pi:%d" % (n, step.max() < math.pi))
                if spi == 0:
                    r.expect(np.allclose(d, rad), "spikiness0", sub, d.tolist())
                if irr == 0 and np.all(d > 1e-6):
                    r.expect(np.allclose(step, 2 * math.pi / n, atol=1e-6), "irregularity0", sub, step.tolist())
        elif case[0] == "triangle":
            T = [[(0, 0), (3, 0), (0, 2)], [(0, 0), (0, 2), (3, 0)], [(-1, -1), (4, 1), (2, 5)], [(1, 1), (2, 1), (1.5, 9)]]
            vals = [0., 1e-9, .2, .5, .5000001, .8, 1 - 1e-9]
            seen = set()
            for ti, (a, b, c) in enumerate(T):
                for u in vals:
                    for w in vals:
                        it = iter([u, w])
                        class S(Source):
                            def _unit(self):
                                return next(it)
                        with Patched(S({})):
                            ok, p = r.call(utils.point_in_triangle, a, b, c, sub=[ti, u, w])
                        if ok:
                            o = [geo.orient(a, b, p), geo.orient(b, c, p), geo.orient(c, a, p)]
                            r.expect(min(o) >= -1e-9 or max(o) <= 1e-9, "outside", [ti, u, w], p)
                            seen.add((ti,) + tuple(np.round(p, 6)))
            # not collapsed to a point/edge: the produced points span each triangle
            for ti, t in enumerate(T):
                pts = [s[1:] for s in seen if s[0] == ti]
                r.expect(sg.MultiPoint(pts).convex_hull.area > .5 * sg.Polygon(t).area, "collapsed", ti, len(pts))
            r.outcome("points%d" % len(seen))
        elif case[0] == "equilateral":
            for c in ([0., 0.], [3., -1.5], [-100., 20.]):
                for s in (1e-6, .2, 1., 7.):
                    for rot in (0, .3, math.pi / 2, math.pi, -2.):
                        for arg in (c, np.array(c), tuple(c)):
                            ok, t = r.call(utils.equilateral_triangle, arg, s, rot, sub=[c, s, rot])
                            if not ok:
                                continue
                            t = np.array(t)
                            e = [np.hypot(*(t[i] - t[i - 1])) for i in range(3)]
                            up = t[0] - np.array(c)
                            want = s / math.sqrt(3) * np.array([-math.sin(rot), math.cos(rot)])
                            r.expect(t.shape == (3, 2) and np.allclose(e, s, rtol=1e-6), "equilateral", [c, s, rot], t.tolist())
                            r.expect(rot or np.allclose(up - want, 0, atol=1e-9), "upright", [c, s, rot], t.tolist())
                            r.expect(np.allclose(t.mean(axis=0), c, atol=1e-9), "centroid", [c, s, rot], t.tolist())
            r.outcome("ok")
        else:
            for irr, spi in ((-.1, .5), (1.1, .5), (.5, -.1), (.5, 1.1)):
                try:
                    utils.generate_star_polygon((0, 0), 1., irr, spi, 5)
                    r.expect(False, "bad-argument-accepted", [irr, spi], "")
                except ValueError:
                    r.ok()
            r.outcome("rejected")


CHECKS = [Generators()]
