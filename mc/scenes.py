"""Finite alphabet of scenes for the clustering checks, reference geometry and the judges shared by them."""
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg

from . import geo
from .obs import Ellipse, Obstacle, Polygon, StarshapedPolygon, mm

import starshaped_hull as sh

REG = lambda n, r, ph=0.: [[r * math.cos(ph + 2 * math.pi * i / n), r * math.sin(ph + 2 * math.pi * i / n)] for i in range(n)]
SHAPES = {
    "b": ("star", [[-.7, -.7], [.7, -.7], [.7, .7], [-.7, .7]]),
    "p": ("poly", REG(5, .9, .3)),
    "c": ("ell", [1., 1.]),
    "e": ("ell", [1.2, .4]),
    "s": ("star", [[0, 0], [2, 0], [2, .5], [.5, .5], [.5, 2], [0, 2]]),
    "A": ("star", [[-1, -1], [0, -.4], [1, -1], [0, 1.2]]),
    "L": ("poly", [[0, 0], [2, 0], [2, .5], [.5, .5], [.5, 2], [0, 2]]),
    "U": ("poly", [[-1.2, -1], [1.2, -1], [1.2, 1], [.8, 1], [.8, -.6], [-.8, -.6], [-.8, 1], [-1.2, 1]]),
    "S": ("poly", [[-1, -1], [1, -1], [1, .2], [-.6, .2], [-.6, .6], [1, .6], [1, 1], [-1, 1], [-1, -.2], [.6, -.2], [.6, -.6],
                   [-1, -.6]]),
}
CONVEX = set("bpce")


def build(letter, pos, rot, **kw):
    kind, d = SHAPES[letter]
    m = mm.Static(list(pos), rot)
    if kind == "ell":
        return Ellipse(list(d), motion_model=m, **kw)
    if kind == "star":
        return StarshapedPolygon([list(v) for v in d], motion_model=m, **kw)
    return Polygon([list(v) for v in d], motion_model=m, **kw)


def reference(letter, pos, rot):
    kind, d = SHAPES[letter]
    return geo.pose_polygon(geo.ellipse_ring(d, 200) if kind == "ell" else d, [pos, rot])


def probes(letter, pos, rot, scale=.995):
    """Interior points close to the boundary of the obstacle."""
    kind, d = SHAPES[letter]
    if kind == "ell":
        pts = [np.array(p) * .98 for p in geo.ellipse_ring(d, 24)]
    else:
        p = sg.Polygon(d).buffer(-.01, join_style=2)
        c = np.array(p.exterior.coords)
        pts = [c[i] for i in range(len(c) - 1)] + [(c[i] + c[i + 1]) / 2 for i in range(len(c) - 1)]
    return [geo.to_global(p, [pos, rot]) for p in pts]


OPTS = {
    "plain": {},
    "history": {"return_history": True},
    "convex": {"make_convex": True},
    "exclude": {"exclude_obstacles": True},
    "all": {"make_convex": True, "exclude_obstacles": True, "return_history": True},
}


# scenes that take three rounds of merging
MULTI = [
    ["cLss", [[-0.2, -1.8], [1.9, 1.3], [0.3, -0.2], [2.2, 0.5]], [1.0, 1.0, 0.5, 1.0]],
    ["ALbe", [[-0.6, 2.1], [-1.7, -0.4], [2.4, 1.1], [-0.4, -0.3]], [0.5, 0, 0.5, 1.0]],
    ["SLeUL", [[-0.7, -0.4], [-1.5, -2.1], [-1.4, -1.5], [0.1, 1.7], [-2.3, 0.3]], [-0.8, -0.8, 0.5, -0.8, 0.5]],
    ["SAsSL", [[2.1, -0.9], [1.7, 0.7], [-2.1, -0.3], [2.2, -1.8], [-1.3, 0.0]], [0.5, -0.8, 0, 0.5, 0]],
    ["ScUcU", [[0.2, 0.3], [-1.3, 1.8], [1.4, 2.4], [-0.7, -0.7], [0.9, 2.5]], [1.0, 0, 0.5, 0.5, 0.5]],
]


def scene_cases(tier, salt=0):
    """[letters, positions, rotations, option names] ; the query points are added by `points`."""
    out = []
    grid8 = [(a, b) for a in (-1.5, 0, 1.) for b in (-1., 0, 1.5)]
    if tier == "quick":
        k = 0
        for s in itertools.product("bpcesALUS", repeat=2):
            for p in grid8:
                k += 1
                out.append(["".join(s), [[0, 0], list(p)], [0, .5 if k % 2 else 1.9], ["plain"] if k % 4 else ["all"]])
        for s in itertools.combinations_with_replacement("bceALUS", 3):
            for ps in itertools.combinations([(-1.5, 0), (0, 1.5), (1, -1), (1.7, .3)], 3):
                k += 1
                out.append(["".join(s), [list(p) for p in ps], [0, .5, 1.], [list(OPTS)[k % 5]]])
        for s in "bpcesALUS":
            out.append([s, [[0.3, -.2]], [.4], list(OPTS)])
    else:
        for s in itertools.product("bpcesALUS", repeat=2):
            for p in itertools.product((-2, -1.5, -.7, 0, 1., 2.3), (-1.8, -1., 0, .4, 1.5)):
                for r in (0., .5, 1.9):
                    out.append(["".join(s), [[0, 0], list(p)], [0, r], ["history", "all"]])
        for s in itertools.product("bceALUS", repeat=3):
            for ps in itertools.combinations([(-1.5, 0), (0, 1.5), (1, -1), (1.7, .3), (-.4, -1.6)], 3):
                out.append(["".join(s), [list(p) for p in ps], [0, .5, 1.], ["history", "all"]])
        for s in itertools.combinations_with_replacement("beAUS", 4):
            for ps in ([(-2, 0), (0, 1.5), (1, -1), (1.9, .3)], [(-1.3, -1.3), (1.4, -1.2), (1.3, 1.4), (-1.5, 1.2)]):
                out.append(["".join(s), [list(p) for p in ps], [0, .5, 1., -.8], ["history", "all"]])
        for s in "bpcesALUS":
            for r in (0., .4, 1.1, -2.):
                out.append([s, [[0.3, -.2]], [r], list(OPTS)])
    out += [s + [list(OPTS)] for s in MULTI]
    return out


XS = [(.1, -3), (-3, .2), (-2, 2), (0, -1.3), (-1.3, 0), (.3, .45)]
GS = [(.1, 3), (2.2, -2.1), (1.3, .8), (.1, -3)]


def points(refs, margin=.02):
    free = lambda p: all(r.distance(sg.Point(p)) > margin for r in refs)
    return [x for x in XS if free(x)], [g for g in GS if free(g)]


def id_cases():
    """Scenes with obstacles of explicitly chosen identities (which name the clusters)."""
    out = []
    P3 = [[(0, 0), (.8, .3), (9, 7)], [(0, 0), (9, 7), (.8, .3)], [(9, 7), (0, 0), (.8, .3)], [(0, 0), (.8, .3), (1.5, -.4)]]
    for ids in ((1, 11, 111), (1, 2, 12), (1, 2, 3), (3, 2, 1), (10, 1, 101), (7, 70, 77), (5, 25, 30)):
        for perm in itertools.permutations(ids):
            for k, P in enumerate(P3):
                out.append(["bAe" if k % 2 else "bbs", [list(q) for q in P], [0, .5, 1.], ["plain"], list(perm)])
    for ids in ((1, 23, 12, 3), (1, 11, 11 * 10 + 1, 1111), (1, 12, 11, 2), (4, 3, 2, 1), (1, 4, 2, 3)):
        for P in ([(0, 0), (.8, .3), (9, 7), (9.8, 7.3)], [(0, 0), (9, 7), (.8, .3), (9.8, 7.3)], [(0, 0), (9, 7), (9.8, 7.3), (.8, .3)],
                  [(0, 0), (.8, .3), (9, 7), (1.6, .3)]):
            for l in ("bbbb", "bAee"):
                out.append([l, [list(q) for q in P], [0, .5, 1., .2], ["plain"], list(ids)])
    return out


# Scenes in which the union of the parts of a cluster is a multipolygon because of rounding
SLIVER = [
    ['pLb', [[1.6, 0.6], [1.3, -0.5], [1.3, 0.2]], [0, 0.5, 0], ['plain', 'convex'], None, [[[-3.1, -1.5], [-3.9, 2.6]]]],
    ['ULcb', [[0.8, 1.3], [1.2, 0.3], [-0.1, -0.8], [-0.4, -1.3]], [0, 0.5, 0.5, 0.5], ['plain', 'convex'], None, [[[-0.8, -3.4], [2.9, -0.3]]]],
    ['bUsc', [[1.3, 0.1], [-0.6, 0.6], [-0.3, -1.2], [-0.4, -1.2]], [0.3, 0.5, 0.3, 0.5], ['plain', 'convex'], None, [[[2.3, 2.7], [0.8, -0.9]]]],
    ['UL', [[-1.1, 0.8], [-1.1, -0.2]], [0, 0.5], ['plain', 'convex'], None, [[[-0.7, -3.9], [3.1, 1.7]]]],
    ['ULc', [[-0.3, 0.9], [-1.2, -0.1], [-0.9, 0.0]], [0, 0.3, 0.5], ['plain', 'convex'], None, [[[2.6, -1.4], [3.8, -2.3]]]],
    ['Ube', [[-0.8, 0.1], [-0.3, -1.0], [-1.2, 1.3]], [0, 0, 0.5], ['plain', 'convex'], None, [[[-3.9, 0.5], [-3.8, -3.9]]]],
]


def solve(case, x, xg, opts, r, sub, eps=.2, prev=None, **kw):
    """Runs the code under test.  Returns None on failure or a dict."""
    letters, pos, rots = case[:3]
    if len(case) > 4 and case[4]:
        Obstacle.id_counter = max(Obstacle.id_counter, max(case[4]))
        obs = [build(*a, id=i) for *a, i in zip(letters, pos, rots, case[4])]
    else:
        obs = [build(s, p, q) for s, p, q in zip(letters, pos, rots)]
    np.random.seed(0)
    o = dict(OPTS[opts]) if isinstance(opts, str) else dict(opts)
    o.update(kw)
    ok, res = r.call(sh.cluster_and_starify, obs, np.array(x, float), np.array(xg, float), eps,
                     previous_clusters=prev, sub=sub, **o)
    if not ok:
        return None
    want = 5 if o.get("return_history") else 4
    if not r.expect(len(res) == want, "arity", sub, "result has %d components, expected %d" % (len(res), want)):
        return None
    d = dict(obs=obs, clusters=res[0], timing=res[1], flag=res[2], n_iter=res[3], history=res[4] if want == 5 else None)
    r.outcome("n=%d flag=%d clusters=%d iter=%d" % (len(obs), d["flag"], len(d["clusters"]), d["n_iter"]))
    return d


def cluster_polygon(cl):
    return cl.cluster_obstacle.polygon()


def judge_partition(d, letters, pos, rots, r, sub):
    """Partition, containment, disjointness."""
    ids = sorted(o.id() for c in d["clusters"] for o in c.obstacles)
    r.expect(ids == sorted(o.id() for o in d["obs"]), "partition", sub, "obstacles in clusters: %s" % ids)
    if d["flag"] == 0:
        r.expect(all(len(c.obstacles) == 1 for c in d["clusters"]), "incomplete-not-singletons", sub, "")
        return
    pol = []
    for c in d["clusters"]:
        if not r.expect(c.cluster_obstacle is not None, "no-obstacle", sub, "cluster %s has no cluster obstacle" % c.name):
            return
        pol.append(cluster_polygon(c))
    for i in range(len(pol)):
        for j in range(i):
            a = pol[i].intersection(pol[j]).area
            r.expect(a < 1e-9, "overlap", sub, "clusters %s and %s overlap by %g" % (d["clusters"][i].name, d["clusters"][j].name, a))
    byid = {o.id(): k for k, o in enumerate(d["obs"])}
    for c, p in zip(d["clusters"], pol):
        for o in c.obstacles:
            k = byid.get(o.id())
            if k is None:
                continue
            a = o.polygon().difference(p.buffer(1e-3)).area
            r.expect(a < 1e-6, "not-covered", sub, "obstacle %s %s sticks out of its cluster by area %g" % (k, letters[k], a))
            bad = [q for q in probes(letters[k], pos[k], rots[k]) if not c.cluster_obstacle.interior_point(q)]
            r.expect(not bad, "point-not-covered", sub, "point %s of obstacle %s is not inside its cluster obstacle" % (bad[:1], k))


def judge_star(d, r, sub, tol=.02):
    if d["flag"] == 0:
        return
    for c in d["clusters"]:
        p = cluster_polygon(c)
        xr = np.asarray(c.cluster_obstacle.xr(), float)
        ks = [("reference point", xr)] + [("kernel point", k) for k in np.asarray(c.kernel_points)]
        for nm, k in ks:
            inside = p.distance(sg.Point(*k)) < 1e-6
            r.expect(inside, "outside", sub, "%s %s of cluster %s is outside it" % (nm, np.round(k, 4), c.name))
            ok, why = geo.star_ok(p, k, tol)
            r.expect(ok, "not-star", sub, "cluster %s, %s: %s" % (c.name, nm, why))
        r.expect(np.hypot(*(xr - np.mean(c.kernel_points, axis=0))) < 1e-6, "reference", sub,
                 "reference point %s, kernel points %s" % (xr, np.asarray(c.kernel_points).tolist()))


def judge_free(d, x, xg, r, sub):
    if d["flag"] == 0:
        return
    for c in d["clusters"]:
        p = cluster_polygon(c)
        for nm, q in (("robot", x), ("goal", xg)):
            q = np.array(q, float)
            loc = geo.sgn(c.cluster_obstacle.point_location(q))
            r.expect(loc > 0, "swallowed", sub, "%s %s has location %d w.r.t. cluster %s" % (nm, q, loc, c.name))
            r.expect(not p.buffer(-1e-9).contains(sg.Point(*q)), "swallowed-polygon", sub, "%s %s in cluster %s" % (nm, q, c.name))
