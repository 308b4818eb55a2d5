"""get_intersection_clusters on every labelled intersection graph (C11)."""
import itertools

import shapely
import shapely.geometry as sg

from ..core import Check
from ..scenes import sh


# parts of a tile; any two of them in one tile intersect: they overlap, contain each other, or share only an edge or a corner
PART = {"full": (0, 0, 1, 1), "inner": (.25, .25, .75, .75), "west": (0, 0, .5, 1), "east": (.5, 0, 1, 1), "sw": (0, 0, .5, .5), "ne": (.5, .5, 1, 1)}
KINDS = [None, ("full", "full"), ("full", "inner"), ("inner", "full"), ("west", "east"), ("ne", "sw")]


class Region:
    """Obstacle stand-in: an id and a region made of tiles (two regions intersect iff they share a tile)."""

    def __init__(self, i, tiles):
        self._id, self.tiles = i, frozenset(tiles)
        B = [sg.box(*(2 * t[0] + PART[k][0], 2 * t[1] + PART[k][1], 2 * t[0] + PART[k][2], 2 * t[1] + PART[k][3]))
             for t in sorted(self.tiles) for k in [t[2] if len(t) > 2 else "full"]]
        self._p = B[0] if len(B) == 1 else shapely.unary_union(B) if any(len(t) > 2 for t in self.tiles) else sg.MultiPolygon(B)

    def id(self):
        return self._id

    def polygon(self, *a):
        return self._p

    def xr(self, *a):
        return (0., 0.)


def components(n, edges):
    lab = list(range(n))
    for _ in range(n):
        for a, b in edges:
            lab[a] = lab[b] = min(lab[a], lab[b])
    out = {}
    for i, l in enumerate(lab):
        out.setdefault(l, set()).add(i)
    return sorted(map(sorted, out.values()))


class Graphs(Check):
    ID = "C11"
    LEVEL = "model_checking"
    RULE = ("every labelled graph on n nodes, n<=6 (7 thorough), as the intersection graph of n clusters; the nodes are clusters of one "
            "or of several obstacles; for n<=4 also every assignment of a kind of contact (equal, containing, contained, along an edge, in a "
            "corner only) to the edges; result compared with union-find, then the function is applied to its own result")
    ASSUMPTIONS = ("regions intersect exactly if they share a tile; tiles are 1 apart",)

    def cases(self, tier):
        out = []
        for n in range(0, 8 if tier == "thorough" else 7):
            total = 2 ** (n * (n - 1) // 2)
            for lo in range(0, total, 64):
                for mode in ("single", "multi") if n < 7 else ("single",):
                    out.append([n, lo, min(lo + 64, total), mode])
        for n in (2, 3, 4):
            base = 6 if n < 4 or tier == "thorough" else 4
            total = base ** (n * (n - 1) // 2)
            for lo in range(0, total, 256):
                out.append([n, lo, min(lo + 256, total), "contact", base])
        return out

    def run(self, case, r):
        n, lo, hi, mode = case[:4]
        if mode == "contact":
            for num in range(lo, hi):
                kinds, q = {}, num
                for e in itertools.combinations(range(n), 2):
                    # base 4: none and three of the kinds, rotating
                    k = q % case[4]
                    kinds[e] = KINDS[k if case[4] == 6 or k == 0 else 2 + (k + num // 64) % 4]
                    q //= case[4]
                self.one(n, [e for e in kinds if kinds[e]], mode, r, num, kinds)
            return
        allp = list(itertools.combinations(range(n), 2))
        for bits in range(lo, hi):
            edges = [e for i, e in enumerate(allp) if bits >> i & 1]
            self.one(n, edges, mode, r, bits)

    def one(self, n, edges, mode, r, bits, kinds=None):
        r.add("states")
        cl, groups = [], []
        for i in range(n):
            tiles = [(i, i)] + [e for e in edges if i in e]
            if kinds:               # regions without a tile of their own can lie inside another one
                tiles = [(*e, kinds[e][e.index(i)]) for e in edges if i in e] or [(i, i)]
            k = 1 if mode != "multi" else 1 + i % 3
            obs = [Region(10 * (i + 1) + q, tiles) for q in range(k)]
            c = sh.ObstacleCluster(obs)
            if k > 1:
                c.cluster_obstacle = Region(1000 + i, tiles)
            cl.append(c)
            groups.append(obs)
        names = [c.name for c in cl]
        want = components(n, edges)
        sub = [bits]
        ok, res = r.call(sh.get_intersection_clusters, list(cl), sub=sub)
        if not ok:
            return
        new, exist = res
        r.add("transitions")
        r.expect(bool(exist) == bool(edges), "exists", sub, "reported %s for edges %s" % (exist, edges), nontrivial=bool(edges))
        got = sorted(sorted(o.id() for o in c.obstacles) for c in new)
        exp = sorted(sorted(o.id() for i in g for o in groups[i]) for g in want)
        r.expect(got == exp, "components", sub, "edges %s: groups %s, expected %s" % (edges, got, exp), nontrivial=bool(edges))
        if not edges:
            r.expect(len(new) == n and all(a is b for a, b in zip(new, cl)), "unchanged", sub, "")
        for i in range(n):
            if [i] in want:
                r.expect(names[i] in [c.name for c in new], "name", sub, "unmerged cluster %s was renamed" % names[i])
        if got == exp and edges:
            for c in new:
                c.cluster_obstacle = Region(2000, [t for t in {x for i in range(n) if groups[i][0].id() in [
                    o.id() for o in c.obstacles] for x in groups[i][0].tiles}])
            ok, res = r.call(sh.get_intersection_clusters, list(new), sub=sub + ["again"])
            r.add("transitions")
            if ok:
                r.expect(not res[1] and len(res[0]) == len(new), "fixpoint", sub, "")
        r.add("traces_validated_against_impl")
        r.outcome("n=%d components=%d" % (n, len(want)))


CHECKS = [Graphs()]
