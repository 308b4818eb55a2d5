"""cluster_and_starify: convexification (C06), step-by-step definition and completeness (C07), previous clusters (C05)."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import env, geo, scenes
from ..core import Check
from ..obs import Ellipse, Polygon, StarshapedPolygon, mm
from ..scenes import CONVEX, OPTS, SHAPES, build, cluster_polygon, points, reference, scene_cases, sh, solve
from .cluster import SCENE_RULE
from .graphs import components
from .limits import VClock


def idx_of(d):
    return {o.id(): i for i, o in enumerate(d["obs"])}


def groups(clusters, idx):
    return sorted(sorted(idx[o.id()] for o in c.obstacles) for c in clusters)


class Scenes(Check):
    def cases(self, tier):
        cs = scene_cases(tier)
        if tier == "quick":
            return [c for i, c in enumerate(cs) if i % 3 == 0 or len(c[0]) > 3]
        return cs

    def run(self, case, r):
        letters, pos, rots, _ = case
        refs = [reference(*a) for a in zip(letters, pos, rots)]
        xs, gs = points(refs)
        for x in xs:
            for g in gs:
                self.one(case, refs, x, g, r, [list(x), list(g)])


class Convexify(Scenes):
    ID = "C06"
    RULE = SCENE_RULE + "; each scene is solved with and without convexification"
    ASSUMPTIONS = ("contacts within 1e-7 are not judged",)

    def one(self, case, refs, x, g, r, b):
        letters = case[0]
        for ex in (False, True) if sum(map(ord, letters)) % 3 == 0 else (False,):
            sub = b + [int(ex)]
            p = solve(case, x, g, {"exclude_obstacles": ex}, r, sub)
            c = solve(case, x, g, {"exclude_obstacles": ex, "make_convex": True}, r, sub)
            if p is None or c is None:
                continue
            r.expect(p["flag"] == c["flag"], "flag", sub, "flag %s with and %s without convexification" % (c["flag"], p["flag"]))
            if p["flag"] == 0 or c["flag"] == 0:
                continue
            ip, ic = idx_of(p), idx_of(c)
            gp, gc = groups(p["clusters"], ip), groups(c["clusters"], ic)
            if not r.expect(gp == gc, "partition", sub, "%s vs %s" % (gp, gc)):
                continue
            scenes.judge_partition(c, *case[:3], r, sub)
            scenes.judge_star(c, r, sub)
            scenes.judge_free(c, x, g, r, sub)
            plain = {tuple(sorted(ip[o.id()] for o in q.obstacles)): q for q in p["clusters"]}
            ids = [q.cluster_obstacle.id() for q in c["clusters"]]
            r.expect(None not in ids and len(set(ids)) == len(ids), "ids", sub, str(ids))
            finals = [cluster_polygon(q) for q in c["clusters"]]
            for j, q in enumerate(c["clusters"]):
                key = tuple(sorted(ic[o.id()] for o in q.obstacles))
                q0 = plain[key]
                a, h, f = cluster_polygon(q0), cluster_polygon(q0).convex_hull, finals[j]
                if q0.cluster_obstacle.id() in ip and ip[q0.cluster_obstacle.id()] == key[0]:
                    r.expect(ic.get(q.cluster_obstacle.id()) == key[0], "identity", sub, "cluster %s changed its id" % (key,))
                r.expect(np.hypot(*(np.array(q.cluster_obstacle.xr()) - np.array(q0.cluster_obstacle.xr()))) < 1e-9, "reference", sub, "")
                same, hull = f.symmetric_difference(a).area < 1e-9, f.symmetric_difference(h).area < 1e-9
                r.expect(same or hull, "neither", sub, "cluster %s is neither the original nor its convex hull" % (key,))
                r.expect(q.polygon().symmetric_difference(f).area < 1e-9, "cluster-polygon", sub,
                         "polygon of cluster %s is not that of its obstacle" % (key,))
                flat = h.area - a.area < 1e-9
                if flat:
                    r.outcome("convex already")
                    continue
                block = [n for n, k in enumerate(finals) if n != j and k.distance(h) < 1e-7]
                near = [n for n, k in enumerate(finals) if n != j and k.intersection(h).area < 1e-9 and n in block]
                inside = any(h.contains(sg.Point(*v)) for v in (x, g))
                margin = min(h.exterior.distance(sg.Point(*v)) for v in (x, g)) < 1e-7
                r.outcome("hull blocked=%s pt=%s" % (bool(block), inside))
                if hull and not margin:
                    r.expect(not inside, "swallow", sub, "convexified cluster %s contains robot or goal" % (key,))
                if same and not margin and not inside and not near:
                    r.expect(block, "not-maximal", sub, "cluster %s is left non-convex, but its hull is free" % (key,))
                if hull:
                    r.expect(q.cluster_obstacle.is_convex(), "is_convex", sub, "")


class Definition(Scenes):
    ID = "C07"
    RULE = SCENE_RULE + "; history option, plus the same scenes with a large and with a small workspace and with exclusion of obstacles"
    ASSUMPTIONS = ("the library's own polygon intersection decides contact",)

    def one(self, case, refs, x, g, r, b):
        letters, pos, rots, _ = case
        res = {}
        for nm, o in (("plain", {}), ("exclude", {"exclude_obstacles": True}), ("large", {"workspace": Ellipse([60., 60.])}),
                      ("small", {"workspace": Ellipse([3.6, 3.2], motion_model=mm.Static([.1, 0.], 0.))}),
                      ("tiny", {"workspace": Ellipse([1.6, 1.3])})):
            if nm in ("exclude", "small", "tiny") and (sum(map(ord, letters)) + int(10 * sum(x) + 7 * sum(g))) % 2:
                continue
            sub = b + [nm]
            d = res[nm] = solve(case, x, g, {"return_history": True}, r, sub, **o)
            if d is None:
                continue
            scenes.judge_partition(d, letters, pos, rots, r, sub)
            if nm != "plain":
                scenes.judge_star(d, r, sub)
                scenes.judge_free(d, x, g, r, sub)
            self.history(d, r, sub)
            every = geo.union(refs).convex_hull
            if all(every.distance(sg.Point(*q)) > .01 for q in (x, g)):
                r.expect(d["flag"] == 1, "unsolved", sub, "flag %s although robot and goal are outside the convex hull of the scene" % d["flag"])
                r.outcome("outside the hull")
        p, l = res.get("plain"), res.get("large")
        if p and l:
            r.expect(p["flag"] == l["flag"] and p["n_iter"] == l["n_iter"], "workspace", b, "large workspace: %s/%s" % (p["flag"], l["flag"]))
            if p["flag"] and l["flag"]:
                a = sum(cluster_polygon(u).symmetric_difference(cluster_polygon(v)).area for u, v in zip(p["clusters"], l["clusters"]))
                r.expect(a < 1e-9, "workspace-geometry", b, "results differ by area %g" % a)
        if p and all(q in CONVEX for q in letters):
            pol = [o.polygon() for o in p["obs"]]
            if not any(u.intersects(v) for u, v in itertools.combinations(pol, 2)):
                r.outcome("disjoint convex")
                r.expect(p["flag"] == 1 and p["n_iter"] == 1 and len(p["clusters"]) == len(pol), "disjoint-convex", b,
                         "flag %s, %d clusters after %d iterations" % (p["flag"], len(p["clusters"]), p["n_iter"]))
                for o, c in zip(pol, p["clusters"]):
                    if c.cluster_obstacle is not None:
                        r.expect(cluster_polygon(c).symmetric_difference(o).area < 1e-9, "convex-changed", b, "")

    def history(self, d, r, sub):
        h, idx = d["history"], idx_of(d)
        if d["flag"] == 1:
            if not r.expect(len(h) == d["n_iter"], "history-length", sub, "%d entries for %d iterations" % (len(h), d["n_iter"])):
                return
        h = [q for q in h if isinstance(q, list) and all(c.cluster_obstacle is not None for c in q)]
        if h:
            r.expect(groups(h[0], idx) == [[i] for i in range(len(d["obs"]))], "first", sub, "first iteration is not the single obstacles")
        for i, cl in enumerate(h):
            pol = [cluster_polygon(c) for c in cl]
            edges = [(a, b) for a, b in itertools.combinations(range(len(cl)), 2) if pol[a].intersects(pol[b])]
            want = sorted(sorted(idx[o.id()] for k in comp for o in cl[k].obstacles) for comp in components(len(cl), edges))
            if i + 1 < len(h):
                r.expect(groups(h[i + 1], idx) == want and edges, "step", sub, "iteration %d: %s, expected %s" % (i + 1, groups(h[i + 1], idx), want))
            elif d["flag"] == 1:
                r.expect(not edges, "stopped-early", sub, "clusters of the last iteration intersect")
                r.expect(groups(d["clusters"], idx) == groups(cl, idx), "result", sub, "result is not the last iteration")
        r.outcome("iterations %d flag %d" % (d["n_iter"], d["flag"]))


MOVES = ["same", "robot", "across", "goal", "push", "drop", "expire", "convex", "reorder"]
SEQ_SCENES = [
    ["LU", [[0, 0], [-1.5, 0.]], [0, .5]], ["bcA", [[-1.5, 0], [0, 1.5], [1, -1]], [0, .5, 1.]],
    ["eA", [[0, 0], [.9, -.4]], [0, 1.9]], ["pbb", [[0, 0], [-1.1, -.7], [1.9, 1.2]], [0, 1.9, .3]],
    ["UeL", [[0, 0], [.1, .5], [1.9, -.8]], [0, 0, .4]], ["sA", [[-.5, -.5], [1.6, 1.4]], [0, .2]],
    ["LcA", [[1.2, -1.5], [-1., -.6], [.6, .7]], [1.9, 1.9, .5]],
    ["eeUb", [[-.6, -.9], [-.8, -.2], [1.6, -1.1], [-.1, 1.]], [0, .5, 1.9, 1.9]],
    ["UpeL", [[1.6, -.6], [-1.3, 1.3], [1.2, 1.3], [-1., -.2]], [.5, 1.9, 1.9, 0]],
    ["bbAe", [[-1.6, -1.2], [-.2, -1.1], [.9, -.4], [1.4, 1.]], [0, .3, 1., .2]], ["cc", [[-.6, 0], [.6, .1]], [0, 0]],
]
STARTS = [((.1, -3.), (.1, 3.)), ((-3., .2), (3.1, .3)), ((-2.9, 2.6), (2.8, -2.7))]


LONG = [i for i, s in enumerate(SEQ_SCENES) if len(s[0]) > 3]


class Previous(Check):
    ID = "C05"
    LEVEL = "model_checking"
    RULE = ("every sequence of up to 3 (4 thorough) moves over {unchanged, robot moves, robot changes side, goal moves, obstacle moves into its "
            "neighbour, last obstacle toggles, deadline expires, convexification on, obstacle list reordered} from 11 scenes x start/goal pairs; each call receives the "
            "clusters of the previous one; every reachable state is judged")
    ASSUMPTIONS = ("robot and goal stay free", "random perturbations of collinear points are seeded")

    def cases(self, tier):
        depth = 4 if tier == "thorough" else 3
        out = []
        for i, s in enumerate(SEQ_SCENES):
            for j, st in enumerate(STARTS):
                for n in range(0, depth + 1):
                    if n == depth and ((i + j) % 3 or i in LONG):
                        continue
                    for a in itertools.product(MOVES, repeat=max(n - 2, 0)):
                        out.append([s, [list(q) for q in st], list(a), min(n, 2)])
        return out

    def run(self, case, r):
        s, st, head, tail = case
        for t in itertools.product(MOVES, repeat=tail):
            self.trace(s, st, head + list(t), r)

    def trace(self, s, st, moves, r):
        letters, pos, rots = s[0], [list(p) for p in s[1]], s[2]
        obs = [build(l, p, q) for l, p, q in zip(letters, pos, rots)]
        x, g = np.array(st[0]), np.array(st[1])
        active, prev, d = list(range(len(obs))), None, None
        order = list(range(len(obs)))
        np.random.seed(0)
        hist = []
        for step in range(len(moves) + 1):
            o = {}
            if step:
                m = moves[step - 1]
                if m == "robot":
                    x = x * .97 + (.03, .02)
                elif m == "across":
                    x = -x + (.05, .0)
                elif m == "goal":
                    g = np.array([g[1], -g[0]]) + (.02, .07)
                elif m == "push":
                    c = np.array(pos[0])
                    to = np.array(pos[-1])
                    pos[0] = list(c + .4 * (to - c)) if np.hypot(*(to - c)) > .8 else list(c - .4 * (to - c))
                    obs[0]._motion_model.set_pos(pos[0])
                elif m == "drop":
                    active = list(range(len(obs))) if len(active) < len(obs) else active[:-1]
                elif m == "reorder":
                    order = order[1:] + order[:1] if len(order) > 2 and step % 2 else order[::-1]
                elif m == "expire":
                    o = {"max_compute_time": -1.}
                elif m == "convex":
                    o = {"make_convex": True}
            last = step == len(moves)
            sub = [moves[:step]]
            cur = [obs[i] for i in order if i in active]
            free = all(reference(letters[i], pos[i], rots[i]).distance(sg.Point(*q)) > .02 for i in active for q in (x, g))
            if not free:
                r.outcome("robot or goal not free")
                return
            ok, res = r.call(sh.cluster_and_starify, cur, x, g, .2, previous_clusters=prev, sub=sub, **o)
            if not ok:
                return
            d = dict(obs=cur, clusters=res[0], timing=res[1], flag=res[2], n_iter=res[3])
            r.add("transitions")
            snap = {tuple(sorted(q.id() for q in c.obstacles)): (
                c.cluster_obstacle.id() if c.cluster_obstacle is not None else None,
                c.cluster_obstacle in obs, cluster_polygon(c) if d["flag"] else None,
                None if c.kernel_points is None else np.array(c.kernel_points), set(map(tuple, np.round(x, 9)[None])))
                for c in res[0]}
            hist.append((moves[step - 1] if step else None, d["flag"], snap))
            prev = res[0]
            if last:
                now = [i for i in order if i in active]
                a = [letters[i] for i in now], [pos[i] for i in now], [rots[i] for i in now]
                scenes.judge_partition(d, *a, r, sub)
                scenes.judge_star(d, r, sub)
                scenes.judge_free(d, x, g, r, sub)
                if o.get("max_compute_time") == -1:
                    r.expect(d["flag"] == 0, "expired", sub, "")
                self.laws(hist, r, sub)
        r.add("states")
        r.add("traces_validated_against_impl")
        r.outcome("depth %d flag %s clusters %d" % (len(moves), d["flag"], len(d["clusters"])))

    def laws(self, hist, r, sub):
        if len(hist) < 2:
            return
        (m, f, s), (m0, f0, s0) = hist[-1], hist[-2]
        if f and f0:
            for k in s:
                if k in s0 and s[k][1] == s0[k][1]:
                    r.expect(s[k][0] == s0[k][0], "identity", sub, "cluster %s changed its id from %s to %s" % (k, s0[k][0], s[k][0]))
        ids = [v[0] for v in s.values()]
        if f:
            r.expect(None not in ids and len(set(ids)) == len(ids), "unique", sub, "cluster ids %s" % ids)
        # unchanged scene: same clusters and same geometry from the second unchanged call on
        still = ("same", "reorder")
        if m in still and m0 in still and f and f0 and len(hist) > 2 and hist[-3][1]:
            if r.expect(sorted(s) == sorted(s0), "unstable-partition", sub, lambda: "%s then %s" % (sorted(s0), sorted(s))):
                for k in s:
                    r.expect(s[k][2].symmetric_difference(s0[k][2]).area < 1e-9, "unstable", sub, lambda: "cluster %s changes in an unchanged scene" % (k,))


CHECKS = [Previous(), Convexify(), Definition()]
