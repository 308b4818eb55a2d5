"""Option exclude_obstacles of cluster_and_starify (C32)."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import scenes
from ..obs import Ellipse
from ..scenes import cluster_polygon, solve
from .cluster_more import Scenes, groups, idx_of

REACH = 400.


def hidden(ring, v):
    """Set of points k whose segment to some point of the (connected) obstacle passes through v."""
    v = np.asarray(v, float)
    tri = []
    for a, b in zip(ring[:-1], ring[1:]):
        da, db = v - a, v - b
        na, nb = np.hypot(*da), np.hypot(*db)
        t = sg.Polygon([v, v + REACH * da / na, v + REACH * db / nb])
        if t.area > 1e-9:
            tri.append(t)
    return shapely.unary_union(tri)


class Exclusion(Scenes):
    ID = "C32"
    RULE = ("every scene of 1-5 obstacles of nine shapes x start/goal pairs, with exclusion of obstacles: for every merged cluster of every iteration, an independently computed set of the points from "
            "which no extreme point of another obstacle lies between the point and a member; the centre of the kernel must lie in it whenever it is not (almost) empty")
    ASSUMPTIONS = ("sets of less than 1e-3 area are not judged", "obstacles with an extreme point of another one within 1e-6 of the boundary (.05 for ellipses, which are compared as polygons) are not judged", "the corners of the kernel triangle are not judged: they may leave a non-convex set")

    def cases(self, tier):
        cs = [c for c in scenes.scene_cases(tier) if len(c[0]) > 1]
        if tier == "quick":
            return [c for i, c in enumerate(cs) if i % 3 == 1 or len(c[0]) > 2]
        return cs

    def one(self, case, refs, x, g, r, b):
        d = solve(case, x, g, {"return_history": True}, r, b, exclude_obstacles=True)
        if d is None:
            return
        idx = idx_of(d)
        h = [c for c in d["history"] if isinstance(c, list)]
        merged = {}
        for i, cl in enumerate(h):
            for c in cl:
                if len(c.obstacles) > 1 and c.kernel_points is not None:
                    merged[(i, tuple(sorted(idx[o.id()] for o in c.obstacles)))] = c
        if not merged:
            if d["flag"] == 1:
                p = solve(case, x, g, {}, r, b + ["plain"])
                if p is not None and r.expect(p["flag"] == 1 and groups(p["clusters"], idx_of(p)) == groups(d["clusters"], idx), "unneeded", b, "nothing merged, but the result changes"):
                    a = sum(cluster_polygon(u).symmetric_difference(cluster_polygon(v)).area for u, v in zip(p["clusters"], d["clusters"]))
                    r.expect(a < 1e-9, "unneeded", b, "nothing merged, but the geometry changes by area %g" % a)
            return
        pol = [o.polygon() for o in d["obs"]]
        rings = [np.array(p.exterior.coords) for p in pol]
        for (it, members), c in merged.items():
            forbidden, unclear = [hidden(rings[m], q) for m in members for q in (x, g)], False
            for m, q in itertools.product(members, range(len(pol))):
                if m == q:
                    continue
                pts = [sg.Point(*v) for v in rings[q][:-1]]
                ds = [pol[m].exterior.distance(p) for p in pts]
                if min(ds) < (.05 if isinstance(d["obs"][m], Ellipse) else 1e-6):
                    unclear = True
                    break
                if any(pol[m].contains(p) for p in pts):
                    continue
                forbidden += [hidden(rings[m], v) for v in rings[q][:-1]]
            if unclear:
                continue
            f = shapely.unary_union(forbidden)
            free = sg.box(-30, -30, 30, 30).difference(f)
            r.outcome("%d members, %s" % (len(members), "possible" if free.area > 1e-3 else "impossible"))
            if free.area < 1e-3:
                continue
            inner = f.buffer(-.03 if any(isinstance(d["obs"][m], Ellipse) for m in members) else -1e-4)  # (polygon approximation)
            k = np.mean(c.kernel_points, axis=0)
            r.expect(not inner.contains(sg.Point(*k)), "not-excluded", b + [it], lambda: "cluster %s: the centre %s of the kernel sees an extreme point of another obstacle in front of a member" % (members, k))


CHECKS = [Exclusion()]
