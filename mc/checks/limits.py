"""Compute-time and iteration limits of cluster_and_starify: every expiry point under a virtual clock (C04)."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import env, geo, scenes
from ..core import Check
from ..scenes import OPTS, build, reference, points, solve, cluster_polygon


class VClock:
    """Time stands still until the k-th read, from which on it is past every deadline."""

    def __init__(self, k=None, step=0.):
        self.k, self.step, self.n, self.t = k, step, 0, 1e9

    def __call__(self):
        self.n += 1
        self.t += self.step
        return self.t + (1e7 if self.k is not None and self.n >= self.k else 0.)

    def __enter__(self):
        env.clock.virtual = self
        return self

    def __exit__(self, *a):
        env.clock.virtual = None


def sig(d):
    idx = {o.id(): i for i, o in enumerate(d["obs"])}
    return [([idx.get(o.id()) for o in c.obstacles], np.round(shapely.get_coordinates(cluster_polygon(c)), 9).tolist()) for c in d["clusters"]]


RANK = {0: 0, 2: 1, 1: 2}
SCENES = [
    ["LU", [[0, 0], [-1.5, 0.]], [0, .5]], ["Ae", [[0, 0], [1., -1.]], [0, 1.9]], ["pb", [[0, 0], [-1.5, -1]], [0, 1.9]],
    ["bcA", [[-1.5, 0], [0, 1.5], [1, -1]], [0, .5, 1.]], ["eUL", [[-1.5, 0], [0, 1.5], [1.7, .3]], [0, .5, 1.]],
    ["AAs", [[-1.5, 0], [1., -1], [1.7, .3]], [0, .5, 1.]], ["bbbb", [[-2.1, 0], [-.7, .3], [.7, .6], [2.1, .9]], [0, 0, 0, 0]],
    ["U", [[.3, -.2]], [.4]], ["b", [[.3, -.2]], [.4]], ["eSe", [[-1.5, .2], [0, 1.5], [1.2, .9]], [0, .5, 1.]],
    ["cAe", [[-2, 0], [0, 1.2], [1.2, .9]], [0, .5, 1.]], ["sb", [[0, 0], [1.2, 1.2]], [0, 0]],
]
ROUNDS = ["bbAb", [[-1.6, -1.2], [-.2, -1.1], [.9, -.4], [1.4, 1.]], [0, .3, 1., .2]]


class Limits(Check):
    ID = "C04"
    LEVEL = "fault_enumeration"
    RULE = ("scenes x option combinations: the clock stands still and jumps past the deadline at its k-th read, for every k "
            "up to the number of reads of the undisturbed run; every iteration limit; every combination of the boolean options "
            "(printing options included); robot equal to goal; robot or goal inside an obstacle or enclosed")
    ASSUMPTIONS = ("the code reads time through the functions of the time module", "the clock does not run backwards")

    def cases(self, tier):
        sc = SCENES + [ROUNDS] + [list(m) for m in (scenes.MULTI if tier == "thorough" else scenes.MULTI[:2])]
        if tier == "thorough":
            sc = sc + [[c[0], c[1], c[2]] for c in scenes.scene_cases("quick")[5::17]]
        out = []
        for i, s in enumerate(sc):
            for o in ("plain", "all", "convex", "history") if tier == "thorough" else (("plain", "all"), ("history", "convex"))[i % 2]:
                out.append(["expiry", s, o])
            out.append(["iterations", s])
            out.append(["options", s])
        for c in scenes.scene_cases("quick")[:: 1 if tier == "thorough" else 3]:
            out.append(["blocked", c[:3]])
        return out

    def run(self, case, r):
        getattr(self, case[0])(case, r)

    def pairs(self, s, n):
        refs = [reference(*a) for a in zip(*s)]
        xs, gs = points(refs)
        pr = [(x, g) for x in xs for g in gs if x != g]
        return refs, pr[:: max(1, len(pr) // n)][:n]

    def judge_any(self, d, s, x, g, u, r, sub):
        scenes.judge_partition(d, s[0], s[1], s[2], r, sub)
        scenes.judge_star(d, r, sub)
        scenes.judge_free(d, x, g, r, sub)
        r.expect(len(d["timing"]) == 4 and all(np.isfinite(t) for t in d["timing"]), "timing", sub, str(d["timing"]))
        if d["flag"] == 1:
            r.expect(u["flag"] == 1 and sig(d) == sig(u), "differs", sub, "complete result differs from the undisturbed one")
        r.expect(d["n_iter"] <= u["n_iter"], "n_iter", sub, "%s iterations, undisturbed %s" % (d["n_iter"], u["n_iter"]))

    def expiry(self, case, r):
        s, o = case[1], case[2]
        for x, g in self.pairs(s, 2)[1]:
            b = [list(x), list(g)]
            with VClock() as c:
                u = solve(s, x, g, o, r, b + ["frozen"], max_compute_time=1000.)
                total = c.n
            if u is None:
                continue
            with VClock(step=1e-5):
                d = solve(s, x, g, o, r, b + ["ticking"], max_compute_time=1e9)
            if d is not None:
                r.expect(d["flag"] == u["flag"] and d["n_iter"] == u["n_iter"] and (u["flag"] == 0 or sig(d) == sig(u)), "ticking", b, "")
            marks = []
            for m in range(1, u["n_iter"]):
                with VClock() as c:
                    d = solve(s, x, g, o, r, b + ["iter%d" % m], max_compute_time=1000., max_iterations=m)
                marks.append(c.n)
            nonconvex, plain = False, None
            if OPTS[o].get("make_convex"):
                with VClock() as c:
                    d = solve(s, x, g, o, r, b + ["plain"], max_compute_time=1000., make_convex=False)
                if d is not None and d["flag"] == 1:
                    nonconvex, plain = any(not cl.cluster_obstacle.is_convex() for cl in d["clusters"]), c.n
            prev = (0, 0)
            for k in range(2, total + 2):
                sub = b + [k]
                with VClock(k) as c:
                    d = solve(s, x, g, o, r, sub, max_compute_time=1000.)
                if d is None:
                    continue
                r.add("deadline_expiry_points")
                self.judge_any(d, s, x, g, u, r, sub)
                r.expect(d["flag"] != 2 or OPTS[o].get("make_convex"), "flag", sub, "flag 2 without convexification")
                now = (RANK[d["flag"]], d["n_iter"])
                r.expect(now[0] >= prev[0] and now[1] >= prev[1], "monotone", sub, "status %s after %s for an earlier expiry" % (now, prev))
                prev = now
                if k == 2 and len(s[0]):
                    r.expect(d["flag"] == 0, "expired-at-start", sub, "flag %s" % d["flag"])
                for m, n in enumerate(marks):
                    if k <= n:
                        r.expect(d["flag"] == 0 and d["n_iter"] <= m + 1, "ignored-deadline", sub,
                                 "expired during iteration %d, but flag=%s n_iter=%s" % (m + 1, d["flag"], d["n_iter"]))
                        break
                if nonconvex and k <= plain:
                    r.expect(d["flag"] != 1, "ignored-deadline-convex", sub, "")
                if d["flag"] == 2:
                    r.outcome("cut short in convexification")
            r.expect(prev[0] == RANK[u["flag"]], "never-completes", b, "")

    def iterations(self, case, r):
        s = case[1]
        for x, g in self.pairs(s, 4)[1]:
            for o in ("plain", "all"):
                b = [list(x), list(g), o]
                u = solve(s, x, g, o, r, b)
                if u is None:
                    continue
                for m in range(0, u["n_iter"] + 2):
                    d = solve(s, x, g, o, r, b + [m], max_iterations=m)
                    if d is None:
                        continue
                    self.judge_any(d, s, x, g, u, r, b + [m])
                    want = 0 if u["n_iter"] > max(m, 1) else u["flag"]
                    r.expect(d["flag"] == want, "iteration-limit", b + [m], "flag %s, expected %s (undisturbed %s in %s iterations)" % (
                        d["flag"], want, u["flag"], u["n_iter"]))
                    r.expect(d["n_iter"] <= max(m, 1), "iteration-count", b + [m], str(d["n_iter"]))

    def options(self, case, r):
        s = case[1]
        names = ("make_convex", "exclude_obstacles", "return_history", "verbose", "timing_verbose")
        for x, g in self.pairs(s, 2)[1]:
            for bits in itertools.product((False, True), repeat=5):
                o = dict(zip(names, bits))
                for lim in (np.inf, 0.):
                    sub = [list(x), list(g), [int(q) for q in bits], str(lim)]
                    d = solve(s, x, g, o, r, sub, max_compute_time=lim if lim else -1.)
                    if d is None:
                        continue
                    if lim == 0:
                        r.expect(d["flag"] == 0, "expired-at-start", sub, "")
                    scenes.judge_partition(d, s[0], s[1], s[2], r, sub)
                    scenes.judge_star(d, r, sub)
                    scenes.judge_free(d, x, g, r, sub)

    def blocked(self, case, r):
        s = case[1]
        refs = [reference(*a) for a in zip(*s)]
        xs, gs = points(refs)
        for x in xs[:3]:
            sub = ["x=xg", list(x)]
            d = solve(s, x, x, "plain", r, sub)
            if d is not None:
                scenes.judge_partition(d, s[0], s[1], s[2], r, sub)
                scenes.judge_star(d, r, sub)
                scenes.judge_free(d, x, x, r, sub)
        for i, q in enumerate(refs):
            p = list(q.representative_point().coords[0])
            for a, b in ((p, xs[0]), (xs[0], p), (p, p)):
                for o in ("plain", "all"):
                    sub = ["inside", i, [float(v) for v in a], [float(v) for v in b], o]
                    d = solve(s, a, b, o, r, sub)
                    if d is not None:
                        r.expect(d["flag"] == 0, "interior", sub, "flag %s for robot or goal inside an obstacle" % d["flag"])
                        scenes.judge_partition(d, s[0], s[1], s[2], r, sub)
        r.outcome("robot or goal in obstacle")


CHECKS = [Limits()]
