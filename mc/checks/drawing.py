"""What drawing shows (C28)."""
import itertools
import sys

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import shapely  # noqa: E402
import shapely.geometry as sg  # noqa: E402
from matplotlib import colors, lines, patches, text  # noqa: E402

from .. import geo, scenes  # noqa: E402
from ..core import Check  # noqa: E402
from ..obs import G, O, Ellipse, Polygon, StarshapedPolygon, StarshapedPrimitiveCombination, mm  # noqa: E402
from ..scenes import solve, points, reference, MULTI  # noqa: E402
from .lifecycle import vector, differ, LSHAPE  # noqa: E402
import starshaped_hull  # noqa: E402,F401

cs = sys.modules["starshaped_hull.cluster_and_starify"]

EVENTS = ["updateG", "updateO", "move", "jump", "xr", "query"]
KINDS = ["ell", "poly", "star", "combi"]


def region(pat):
    """The set a patch shows (data coordinates), as a polygon."""
    if isinstance(pat, patches.Ellipse):
        t = np.linspace(0, 2 * np.pi, 240, endpoint=False)
        w, h, a = pat.get_width() / 2, pat.get_height() / 2, np.deg2rad(pat.get_angle())
        x, y = w * np.cos(t), h * np.sin(t)
        c = np.array(pat.get_center(), float)
        return sg.Polygon(np.stack((c[0] + x * np.cos(a) - y * np.sin(a), c[1] + x * np.sin(a) + y * np.cos(a)), 1))
    return sg.Polygon(pat.get_xy())


def same(a, b, tol):
    return a.is_valid and b.is_valid and a.symmetric_difference(b).area < tol


class Drawing(Check):
    ID = "C28"
    RULE = ("obstacle kind x shown parts (reference point, name) x given or new axes x every sequence of up to 3 (4) of {update in either frame, move, change pose, change reference point, "
            "query} after the initial drawing: every artist compared with the state at the last update; every clustering scene of a subset x the three result drawings and the clusters' own")
    ASSUMPTIONS = ("a drawn combination is redrawn, not updated (update_plot is empty by design)",)

    def cases(self, tier):
        d = 4 if tier == "thorough" else 3
        out = [["obs", k, ref, name, ax, fr, list(h)] for k in KINDS for ref in (0, 1) for name in (0, 1) for ax in (0, 1) for fr in ("G", "O")
               for h in itertools.product(EVENTS, repeat=d - 2 if ref and name and not ax and fr == "G" else d - 3)]
        sc = scenes.scene_cases(tier)
        n = 25 if tier == "quick" else 15
        out += [["scene", c] for c in sc[::n]]
        return out

    def run(self, case, r):
        try:
            if case[0] == "scene":
                self.scene(case[1], r)
            else:
                for t in itertools.product(EVENTS, repeat=2):
                    r.call(self.trace, case[1:6], case[6] + list(t), r, sub=[list(t)])
        finally:
            plt.close("all")

    def trace(self, what, seq, r):
        k, ref, name, axg, fr = what
        sub = [seq]
        m = mm.SinusVelocity([1., 2.], .5, False, .8, 0, .6, 0)
        if k == "ell":
            o = Ellipse([1.5, .6], xr=[.2, -.1], motion_model=m, name="nm")
        elif k == "poly":
            o = Polygon(LSHAPE, motion_model=m, name="nm")
        elif k == "star":
            o = StarshapedPolygon(LSHAPE, xr=[.2, .3], motion_model=m, name="nm")
        else:
            o = StarshapedPrimitiveCombination([Ellipse([1.5, .6]), StarshapedPolygon([[-1, -1], [1, -1], [0, 1.4]], xr=[0, 0])], None,
                                               xr=np.array([.1, .1]), name="nm")
        kw = {"show_reference": bool(ref), "show_name": bool(name)}
        want_ax = None
        if axg:
            _, want_ax = plt.subplots()
            kw["ax"] = want_ax
            kw["fc"] = "red"
        if k != "combi":
            kw["frame"] = G if fr == "G" else O
        before = vector(o, k != "poly")
        h, ax = o.draw(**kw)
        why = differ(vector(o, k != "poly"), before)
        r.expect(why is None, "changed-by-drawing", sub, str(why))
        r.expect(not axg or ax is want_ax, "axes", sub, "")
        pats = [p for p in ax.patches]
        r.expect(len(pats) == 1 and pats[0] in h, "patches", sub, "%s" % pats)
        r.expect(np.allclose(pats[0].get_facecolor(), colors.to_rgba("red" if axg else "lightgrey")), "colour", sub, "%s" % (pats[0].get_facecolor(),))
        f = O if fr == "O" and k != "combi" else G
        self.judge(o, k, ax, ref, name, f, r, sub + ["draw"])
        for n, e in enumerate(seq):
            if e in ("updateG", "updateO") and k != "combi":
                f = G if e == "updateG" else O
                o.update_plot(h, f)
                self.judge(o, k, ax, ref, name, f, r, [seq[:n + 1]])
            elif e == "move" and k != "combi":
                o.move(.5)
            elif e == "jump" and k != "combi":
                m.set_pos([-1., .5])
                m.set_rot(-.7)
            elif e == "xr" and k != "poly":
                o.set_xr(np.array([.35, .1]))
            elif e == "query":
                vector(o, k != "poly")
            r.add("transitions")
        h2, ax2 = o.draw(ax=ax, show_reference=bool(ref), show_name=bool(name))
        self.judge(o, k, ax2, ref, name, G, r, sub + ["redrawn"])
        r.expect(ax2 is ax and len(ax.patches) == 2, "redrawn", sub, "%s" % ax.patches)
        r.outcome(k)
        plt.close("all")

    def judge(self, o, k, ax, ref, name, f, r, sub):
        pat = ax.patches[-1]
        if k == "ell":
            p = (O is f and [[0, 0], 0.]) or [o.pos(), o.rot()]
            want = sg.Polygon([geo.to_global(q, p) for q in geo.ellipse_ring((1.5, .6), 240)])
            tol = .02
        else:
            want, tol = o.polygon(f) if k != "combi" else o.polygon(), 1e-9
        got = region(pat)
        r.expect(same(got, want, tol), "patch", sub, lambda: "shows %s instead of %s" % (list(got.exterior.coords)[:3], list(want.exterior.coords)[:3]))
        marks = [l for l in ax.lines]
        if k != "poly":
            r.expect(bool(marks) == bool(ref), "marker-shown", sub, "%s" % marks)
            if marks:
                x = np.ravel(marks[-1].get_xdata()), np.ravel(marks[-1].get_ydata())
                r.expect(np.allclose([x[0][0], x[1][0]], o.xr(f), atol=1e-9), "marker", sub, lambda: "%s, reference point %s" % (x, o.xr(f)))
        else:
            r.expect(not marks, "marker-shown", sub, "%s" % marks)
        r.expect(bool(ax.texts) == bool(name), "name-shown", sub, "%s" % ax.texts)
        if ax.texts:
            t = ax.texts[-1]
            r.expect(t.get_text() == "nm", "name", sub, t.get_text())
            r.expect(np.allclose(t.get_position(), o.pos(f) if k == "poly" else o.xr(f), atol=1e-9), "name-position", sub, "%s" % (t.get_position(),))

    def scene(self, case, r):
        letters, pos, rots, opts = case
        refs = [reference(*a) for a in zip(letters, pos, rots)]
        xs, gs = points(refs)
        for x in xs[:2]:
            for g in gs[:1]:
                for o in opts[:2]:
                    sub = [list(x), list(g), o]
                    d = solve(case, x, g, o, r, sub)
                    if d is None:
                        continue
                    ok, _ = r.call(self.drawings, d, x, g, r, sub, sub=sub)
                    plt.close("all")

    def drawings(self, d, x, g, r, sub):
        cls = d["clusters"]
        snap = lambda: [(cl.name, [ob.polygon().wkb for ob in cl.obstacles], None if cl.cluster_obstacle is None else cl.cluster_obstacle.polygon().wkb,
                         cl.polygon_excluding_hull().wkb, None if cl.kernel_points is None else np.array(cl.kernel_points).tobytes()) for cl in cls]
        before = snap()
        fig, ax = cs.draw_clustering(cls, np.array(x), np.array(g), xlim=[-3, 4], ylim=[-2, 5])
        obs = [ob for cl in cls for ob in cl.obstacles]
        self.areas(r, ax.patches, [ob.polygon() for ob in obs], sub + ["clustering"], [isinstance(ob, Ellipse) for ob in obs])
        self.robot(r, ax, x, g, sub + ["clustering"], [-3, 4], [-2, 5])
        of = [i for i, cl in enumerate(cls) for _ in cl.obstacles]
        cols = [tuple(np.round(p.get_facecolor(), 6)) for p in ax.patches]
        if len(cols) == len(of):
            r.expect(all((cols[i] == cols[j]) == (of[i] == of[j]) for i in range(len(of)) for j in range(i)), "cluster-colours", sub, "%s %s" % (of, cols))
        fig, ax = cs.draw_star_hull(cls, np.array(x), np.array(g), xlim=[-3, 4], ylim=[-2, 5])
        want, ell = [], []
        for cl in cls:
            if cl.cluster_obstacle is not None:
                want.append(cl.cluster_obstacle.polygon())
                ell.append(isinstance(cl.cluster_obstacle, Ellipse))
            u = cl.polygon_excluding_hull()
            for p in getattr(u, "geoms", [u]):
                want.append(p)
                ell.append(False)
        self.areas(r, ax.patches, want, sub + ["star_hull"], ell)
        self.robot(r, ax, x, g, sub + ["star_hull"], [-3, 4], [-2, 5])
        fig, axs = cs.draw_adm_ker(cls, np.array(x), np.array(g), xlim=[-3, 4], ylim=[-2, 5])
        valid = [cl for cl in cls if cl.admissible_kernel is not None and not cl.admissible_kernel.is_empty]
        used = [a for a in np.ravel(np.array(axs, dtype=object)) if a.patches]
        r.expect(len(used) == len(valid), "adm-ker-axes", sub, "%d for %d clusters" % (len(used), len(valid)))
        box = sg.box(-4, -3, 5, 6)
        for cl, a in zip(valid, used):
            want = [ob.polygon() for ob in cl.obstacles]
            ell = [isinstance(ob, Ellipse) for ob in cl.obstacles]
            self.areas(r, a.patches[:len(want)], want, sub + ["adm_ker"], ell)
            self.robot(r, a, x, g, sub + ["adm_ker"], [-3, 4], [-2, 5])
            rest = a.patches[len(want):]
            ker = cl.admissible_kernel
            if ker.geom_type == "Polygon":
                r.expect(len(rest) >= 1 and same(region(rest[0]), ker, 1e-9 + 1e-9 * ker.area), "adm-ker", sub, "")
                if cl.kernel_points is not None:
                    r.expect(len(rest) == 2 and same(region(rest[1]), sg.Polygon(cl.kernel_points), 1e-9), "kernel-points", sub, "")
            r.outcome("adm_ker %s" % ker.geom_type)
        for cl in cls:
            h, a = cl.draw()
            want = ([cl.cluster_obstacle] if cl.cluster_obstacle is not None else []) + list(cl.obstacles)
            self.areas(r, a.patches, [w.polygon() for w in want], sub + ["cluster"], [isinstance(w, Ellipse) for w in want])
            fig, mine = plt.subplots()
            h, a = cl.draw(ax=mine)
            r.expect(a is mine and len(mine.patches) == len(want), "cluster-axes", sub, "")
        r.expect(snap() == before, "result-changed", sub, "")
        r.outcome("scene clusters %d" % len(cls))

    def areas(self, r, pats, want, sub, ell):
        got = [region(p) for p in pats]
        r.expect(len(got) == len(want), "patches", sub, "%d drawn, %d expected" % (len(got), len(want)))
        for p, w, e in zip(got, want, ell):
            w = sg.Polygon(w.exterior)
            r.expect(same(p, w, .06 * w.area if e else 1e-6), "patch", sub, lambda: "area %g expected %g" % (p.area, w.area))

    def robot(self, r, ax, x, g, sub, xlim, ylim):
        pts = [(float(np.ravel(l.get_xdata())[0]), float(np.ravel(l.get_ydata())[0]), l.get_marker()) for l in ax.lines if len(np.ravel(l.get_xdata())) == 1]
        r.expect((float(x[0]), float(x[1]), "o") in pts and (float(g[0]), float(g[1]), "*") in pts, "robot-goal", sub, "%s" % pts)
        r.expect(np.allclose(ax.get_xlim(), xlim) and np.allclose(ax.get_ylim(), ylim), "limits", sub, "")


CHECKS = [Drawing()]
