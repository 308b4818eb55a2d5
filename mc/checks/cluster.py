"""cluster_and_starify: guarantees of the result on an enumerated space of scenes."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geo, scenes
from ..core import Check
from ..scenes import sh, solve, points, reference, scene_cases

SCENE_RULE = ("all scenes of 1-3 obstacles (4 in thorough) over an alphabet of 9 shapes (convex star polygon, plain convex "
              "polygon, circle, slim ellipse, two star polygons, three non-convex plain polygons) x a grid of relative "
              "positions x rotations x every pair of a finite set of robot and goal positions that are free x options; "
              "the real cluster_and_starify is run on each")


class Base(Check):
    def cases(self, tier):
        return scene_cases(tier)

    def run(self, case, r):
        letters, pos, rots, opts = case[:4]
        refs = [reference(*a) for a in zip(letters, pos, rots)]
        if len(case) > 5:
            pairs = case[5]
        else:
            xs, gs = points(refs)
            pairs = [(x, g) for x in xs for g in gs]
        for x, g in pairs:
            for o in opts:
                sub = [list(x), list(g), o]
                d = solve(case, x, g, self.opts(o), r, sub)
                if d is not None:
                    self.judge(d, case, refs, x, g, o, r, sub)

    def opts(self, o):
        return o


class Partition(Base):
    ID = "C01"
    RULE = SCENE_RULE + ("; further scenes of 3 and 4 obstacles x explicit identities in every order, chosen such that sums and "
                         "concatenations of the identities of different groups coincide")
    ASSUMPTIONS = ("disjointness is judged on the polygon representation of the cluster obstacles (the library's own "
                   "intersection criterion); ellipses are 20-gons there", "obstacle ids are distinct")

    def cases(self, tier):
        return scene_cases(tier) + scenes.id_cases()

    def judge(self, d, case, refs, x, g, o, r, sub):
        scenes.judge_partition(d, case[0], case[1], case[2], r, sub)


class Star(Base):
    ID = "C02"
    RULE = SCENE_RULE + "; further scenes in which unions are multipolygons because of rounding; every cluster obstacle is queried"
    ASSUMPTIONS = ("a segment may leave the cluster polygon by at most 0.02 (polygon approximation of ellipses, 1e-4 "
                   "shrinking of segments in the hull construction)",)

    def cases(self, tier):
        return scene_cases(tier) + scenes.SLIVER

    def judge(self, d, case, refs, x, g, o, r, sub):
        scenes.judge_star(d, r, sub)
        if d["flag"] == 0 or o != case[3][0] and len(case) < 5:
            return
        for c in d["clusters"]:
            s = sub + [c.name]
            for q in (x, g):
                q = np.array(q, float)
                ok, b = r.call(c.cluster_obstacle.boundary_mapping, q, sub=s)
                if ok:
                    r.expect(b is not None and sg.Point(*b).distance(scenes.cluster_polygon(c).boundary) < .02, "boundary", s, lambda: "boundary point of %s is %s" % (q, b))
                ok, n = r.call(c.cluster_obstacle.normal, q, sub=s)
                if ok:
                    r.expect(abs(np.linalg.norm(n) - 1) < 1e-6, "normal", s, lambda: "normal at %s is %s" % (q, n))


class Free(Base):
    ID = "C03"
    RULE = SCENE_RULE
    ASSUMPTIONS = ("robot and goal keep a distance of at least 0.02 from every obstacle",)

    def judge(self, d, case, refs, x, g, o, r, sub):
        scenes.judge_free(d, x, g, r, sub)


CHECKS = [Partition(), Star(), Free()]
