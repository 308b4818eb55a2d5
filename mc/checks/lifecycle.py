"""Histories of one obstacle: state-only dependence of answers (C12), motion models (C21), identities and copies (C22)."""
import itertools
import math

import numpy as np
import shapely.geometry as sg

from .. import geo
from ..core import Check
from ..obs import G, O, Ellipse, Polygon, StarshapedPolygon, StarshapedPrimitiveCombination, mm
from obstacles import Obstacle


def c(p):
    return np.array(p, float)


# ------------------------------------------------------------------------------------------------ C12
LSHAPE = [[0, 0], [2, 0], [2, .5], [.5, .5], [.5, 2], [0, 2]]
SHAPES = {
    "poly": (lambda xr, m: Polygon([list(p) for p in LSHAPE], motion_model=m), None),
    "convex": (lambda xr, m: Polygon([[0, 0], [2, 0], [2.5, 1.5], [.5, 2]], motion_model=m), None),
    "star": (lambda xr, m: StarshapedPolygon([list(p) for p in LSHAPE], xr=xr, motion_model=m), [(.2, .3), (.4, .11), (.1, .45)]),
    "square": (lambda xr, m: StarshapedPolygon([[-1, -1], [1, -1], [1, 1], [-1, 1]], xr=xr, motion_model=m), [(0., 0.), (.6, -.3), (-.5, .8)]),
    "ell": (lambda xr, m: Ellipse([1.5, .6], xr=xr, motion_model=m), [(0., 0.), (.6, -.2), (-.5, .3)]),
    "combi": (lambda xr, m: StarshapedPrimitiveCombination(
        [Ellipse([1.5, .6], motion_model=mm.Static([.3, .1], .4)), StarshapedPolygon([[-1, -1], [1, -1], [0, 1.4]], xr=[0, 0])],
        None, xr=np.array(xr, float)), [(.1, .1), (.3, -.1), (.05, .3)]),
}
PROBES = [(1.3, -2.1), (.3, .2), (4.1, 3.3), (-2.2, .7), (.71, 1.13)]
EVENTS = ["polygon", "polygonO", "kernel", "points", "convex", "move", "jump", "turn", "model", "xr1", "xrG", "xrbad", "xrarr", "copy", "dilate",
          "swap"]


def vector(o, star, full=True):
    """Everything one can ask, as a list of (name, value)."""
    combi = isinstance(o, StarshapedPrimitiveCombination)
    out = []
    for f in (G, O):
        out.append(("polygon" + f.name, np.array(o.polygon(f).exterior.coords)))
        out.append(("pos" + f.name, np.hstack((o.pos(f), o.rot(f)))))
        if star:
            out.append(("xr" + f.name, np.array(o.xr(f), float)))
            out.append(("kernel" + f.name, np.array(o.kernel(f).exterior.coords)))
        if not combi:
            out.append(("extreme" + f.name, np.array(o.extreme_points(f))))
    out.append(("is_convex", [float(bool(o.is_convex()))]))
    out.append(("is_starshaped", [float(bool(o.is_starshaped()))]))
    for i, p in enumerate(PROBES):
        q = c(p)
        out.append(("location%d" % i, [float(np.sign(o.point_location(q)))]))
        if not combi:
            out.append(("tangents%d" % i, np.array(o.tangent_points(q)).ravel()))
        out.append(("line%d" % i, np.array(sorted(tuple(np.round(t, 7)) for t in o.line_intersection([q, c(PROBES[i - 1])]))).ravel()))
        if star:
            out.append(("mapping%d" % i, o.boundary_mapping(q)))
            out.append(("direction%d" % i, o.reference_direction(q)))
            out.append(("distance%d" % i, [float(o.distance_function(q))]))
            out.append(("normal%d" % i, o.normal(q)))
        if not np.array_equal(q, c(p)):
            out.append(("query-array-changed%d" % i, q))
    return out


def differ(a, b, tol=1e-6):
    for (n, u), (m, v) in zip(a, b):
        u, v = np.asarray(u, float), np.asarray(v, float)
        if n != m:
            return "%s vs %s" % (n, m)
        if u.shape != v.shape or not np.allclose(u, v, atol=tol, rtol=1e-7, equal_nan=True):
            if u.shape == v.shape or u.ndim != 2 or not n.startswith(("polygon", "kernel", "extreme")):
                return "%s: %s, fresh object: %s" % (n, np.round(u, 6).tolist(), np.round(v, 6).tolist())
            if sg.Polygon(u).symmetric_difference(sg.Polygon(v)).area > tol:
                return "%s differs by area %g" % (n, sg.Polygon(u).symmetric_difference(sg.Polygon(v)).area)
    return None if len(a) == len(b) else "different number of answers"


class Lifecycle(Check):
    ID = "C12"
    LEVEL = "model_checking"
    RULE = ("every sequence of up to 3 (4 thorough) events over {query polygon in either frame, kernel, all point queries, convexity; move, set position, "
            "set rotation, replace motion model; set reference point in either frame, with a rejected safe set, from an array that is changed afterwards; replace by a "
            "copy; create a dilated copy; work on a second obstacle of the same type} for 6 obstacle kinds; complete answer vector compared with a freshly built obstacle")
    ASSUMPTIONS = ("reference points are in the kernel", "combinations have no motion model and their parts do not move")

    def cases(self, tier):
        d = 4 if tier == "thorough" else 3
        out = []
        for k in SHAPES:
            ev = self.events(k)
            for n in range(0, d + 1):
                for h in itertools.product(ev, repeat=max(n - 2, 0)):
                    out.append([k, list(h), min(n, 2)])
        return out

    def events(self, k):
        star = SHAPES[k][1] is not None
        if k == "combi":
            return [e for e in EVENTS if e not in ("move", "jump", "turn", "model", "dilate")]
        return [e for e in EVENTS if star or e not in ("kernel", "xr1", "xrG", "xrbad", "xrarr")]

    def run(self, case, r):
        k, head, n = case
        for t in itertools.product(self.events(k), repeat=n):
            seq = head + list(t)
            ok, _ = r.call(self.trace, k, seq, r, sub=[seq])
        r.outcome(k)

    def trace(self, k, seq, r):
        build, xrs = SHAPES[k]
        star = xrs is not None
        pos, rot, xr = c((.5, -.3)), .3, (c(xrs[0]) if star else None)
        vel, om = .7, .4
        m = mm.SinusVelocity(list(pos), rot, cartesian_coords=False, x1_mag=vel, x2_mag=om) if k != "combi" else None
        if k == "combi":
            pos, rot = np.zeros(2), 0.
        o = build(None if xr is None else xr.copy(), m)
        for e in seq:
            if e == "polygon":
                o.polygon()
            elif e == "polygonO":
                o.polygon(O)
            elif e == "kernel":
                o.kernel(), o.kernel(O)
            elif e == "points":
                vector(o, star)
            elif e == "convex":
                o.is_convex(), o.is_starshaped()
            elif e == "move":
                dt = .5
                o.move(dt)
                pos, rot = pos + vel * dt * c((math.cos(rot), math.sin(rot))), rot + om * dt
            elif e == "jump":
                pos = pos + (1.25, -.5)
                o._motion_model.set_pos(pos.tolist())
            elif e == "turn":
                rot = rot - 1.1
                o._motion_model.set_rot(rot)
            elif e == "model":
                pos, rot, vel, om = c((-1., .75)), -.6, 0., 0.
                o.set_motion_model(mm.Static([-1., .75], -.6))
            elif e == "xr1":
                xr = c(xrs[1])
                o.set_xr(xr.copy())
            elif e == "xrG":
                xr = c(xrs[2])
                o.set_xr(geo.to_global(xr, [pos, rot]), G)
            elif e == "xrbad":
                o.set_xr(c((40., 41.)), O, True)
            elif e == "xrarr":
                xr = c(xrs[1])
                a = xr.copy()
                o.set_xr(a)
                a += 5.
            elif e == "copy":
                o = o.copy("duplicate")
            elif e == "dilate":
                d = o.dilated_obstacle(.3)
                d.polygon(), d.point_location(c((0., 0.)))
            elif e == "swap":
                p = build(None if xr is None else c(xrs[2]), None if k == "combi" else mm.Static([9., 9.], 2.))
                p.polygon()
                vector(p, star) if len(seq) < 3 else None
            r.add("transitions")
        got = vector(o, star)
        fresh = build(None if xr is None else xr.copy(), None if k == "combi" else mm.Static(pos.tolist(), rot))
        why = differ(got, vector(fresh, star))
        r.expect(why is None, "stale", [seq], "%s after %s: %s" % (k, seq, why))
        r.add("states")
        r.add("traces_validated_against_impl")


# ------------------------------------------------------------------------------------------------ C21
class Ref:
    """Independent simulation of a motion model: explicit Euler integration of its velocity law."""

    def __init__(self, spec):
        self.kind, self.a = spec[0], spec[1:]
        self.t, self.rot, self.idx = 0., 0., 0
        if self.kind in ("static", "cart", "polar"):
            self.p, self.rot = c(self.a[0]), self.a[1]
        else:
            self.p = c(self.a[0])

    def build(self, how="array"):
        """how: the way the positions are given (every one of them denotes the same points)."""
        a = self.a
        give = {"array": lambda p: np.array(p, float), "list": lambda p: [float(q) for q in p], "tuple": tuple, "stack": lambda p: np.array(p, float),
                "int": lambda p: [int(q) if q == int(q) else q for q in p], "intarray": lambda p: np.array([int(q) if q == int(q) else q for q in p])}[how]
        seq = tuple if how == "tuple" else (lambda ps: np.array(list(ps), float)) if how == "stack" else list
        self.given = give(a[0])
        if self.kind == "static":
            return mm.Static(self.given, a[1])
        if self.kind in ("cart", "polar"):
            return mm.SinusVelocity(self.given, a[1], self.kind == "cart", *a[2:])
        if self.kind == "interval":
            return mm.Interval(self.given, (tuple if how == "tuple" else list)((t, give(p)) for t, p in a[1]))
        return mm.Waypoints(self.given, seq(give(p) for p in a[1]), a[2], a[3])

    def vel(self):
        a, t = self.a, self.t
        w = lambda period: 2 * math.pi / period if period else 0.
        if self.kind == "static":
            return c((0, 0)), 0.
        if self.kind == "cart":
            return c((a[2] * math.cos(w(a[3]) * t), a[4] * math.cos(w(a[5]) * t))), 0.
        if self.kind == "polar":
            v = a[2] * math.cos(w(a[3]) * t)
            return c((v * math.cos(self.rot), v * math.sin(self.rot))), a[4] * math.cos(w(a[5]) * t)
        if self.kind == "interval":
            pts, ts = [c(a[0])], [0.]
            for dt, p in a[1]:
                pts.append(c(p))
                ts.append(ts[-1] + dt)
            for i in range(1, len(ts)):
                if t < ts[i] - 1e-12:
                    return (pts[i] - pts[i - 1]) / (ts[i] - ts[i - 1]), 0.
            d = pts[-1] - self.p
            n = np.hypot(*((pts[-1] - pts[-2]) / (ts[-1] - ts[-2])))
            dist = np.hypot(*d)
            return (n * d / dist if dist > n else n * d), 0.
        wp = [c(a[0])] + [c(p) for p in a[1]]
        while self.idx < len(wp) and np.hypot(*(wp[self.idx] - self.p)) < a[3]:
            self.idx += 1
        if self.idx == len(wp):
            return c((0, 0)), 0.
        d = wp[self.idx] - self.p
        return a[2] * d / np.hypot(*d), 0.

    def move(self, dt):
        v, w = self.vel()
        self.p, self.rot, self.t = self.p + v * dt, self.rot + w * dt, self.t + dt


MODELS = [
    ["static", [1., 2.], .5], ["cart", [0., 1.], .25, 1.5, 4, .5, 8], ["cart", [0., 1.], 0., 1.5, 0, .5, 2], ["cart", [2., -1.], 1., 0., 3, 0., 0],
    ["polar", [0., 0.], .5, 1., 0, .8, 0], ["polar", [1., 0.], 0., 1., 4, .8, 8], ["polar", [1., 0.], -2., -1., 0, .5, 4],
    ["interval", [0., 0.], [[1., [1., 0.]], [2., [1., 2.]], [.5, [0., 2.]]]], ["interval", [1., 1.], [[1.5, [1., 4.]]]],
    ["interval", [1., 1.], [[1., [1., 2.]], [1., [1., 2.]], [1., [2., 2.]]]],
    ["waypoints", [0., 0.], [[1., 0.], [1., 1.]], 1., .2], ["waypoints", [0., 0.], [[0., 0.], [.1, 0.], [2., 0.]], .5, .3],
    ["waypoints", [0., 0.], [[1., 0.], [0., 0.]], .8, .25],
]
KINDS_FIXED = ["poly", "star", "ell", "combi"]
GIVEN = ["list", "tuple", "stack", "int", "intarray"]
STEPS = ["dt.25", "dt.5", "dt1", "vel", "setpos", "setrot", "scribble"]


class Motion(Check):
    ID = "C21"
    LEVEL = "model_checking"
    RULE = ("every sequence of up to 4 (5 thorough) events over {move by .25, .5 or 1, read velocities, set position, set rotation, change arrays handed in} for 13 "
            "motion models (all classes, zero periods, coinciding waypoints, ...), each compared after every event with an independent simulation, also through an obstacle carrying the model; sequences of up to "
            "3 (4) also with the positions given as lists, tuples, integers and stacked arrays")
    ASSUMPTIONS = ("velocities are integrated by explicit Euler steps",)

    def cases(self, tier):
        d = 5 if tier == "thorough" else 4
        return ([[i, list(h)] for i in range(len(MODELS)) for h in itertools.product(STEPS, repeat=d - 2)]
                + [[i, list(h), how] for how in GIVEN for i in range(len(MODELS)) for h in itertools.product(STEPS, repeat=d - 3)])

    def run(self, case, r):
        i, head = case[:2]
        if i == 0 and len(set(head)) == 1:
            for k in KINDS_FIXED:
                r.call(self.fixed, k, head, r, sub=["no motion model", k])
        for t in itertools.product(STEPS, repeat=2):
            r.call(self.trace, MODELS[i], head + list(t), r, *case[2:], sub=[head + list(t)])
        r.outcome(" ".join([MODELS[i][0]] + case[2:]))

    def fixed(self, k, seq, r):
        """An obstacle without motion model stays where it is."""
        v = [[0., 0.], [1., 0.], [0., 2.]]
        o = Polygon(v) if k == "poly" else StarshapedPolygon(v) if k == "star" else Ellipse([1., .5]) if k == "ell" else \
            StarshapedPrimitiveCombination([Ellipse([1., .5])], None, xr=np.array([.1, .1]))
        before = o.polygon().wkb
        for e in seq + ["dt1", "dt.25"]:
            if e.startswith("dt"):
                o.move(float(e[2:]))
            r.expect(np.array_equal(o.pos(), [0., 0.]) and o.rot() == 0 and o.polygon().wkb == before, "moved", [k, e], "%s %s" % (o.pos(), o.rot()))
        if k != "poly":
            ok, v = r.call(o.vel_intertial_frame, np.array([3., .4]), sub=[k, "vel"])
            r.expect(not ok or np.array_equal(v, [0., 0.]), "velocity-fixed", [k], lambda: "%s" % v)

    def trace(self, spec, seq, r, how="array"):
        ref = Ref(spec)
        m = ref.build(how)
        o = Polygon([[0., 0.], [1., 0.], [0., 2.]], motion_model=m)
        e2 = Ellipse([1., .5], motion_model=m)
        old = []
        for n, e in enumerate(seq):
            sub = [seq[:n + 1]]
            old.append((o.pos(), np.array(o.pos(), float).copy()))
            if e.startswith("dt"):
                dt = float(e[2:])
                o.move(dt)
                ref.move(dt)
            elif e == "setpos":
                p = np.array([.5, -1.5])
                m.set_pos(p)
                p += 3
                ref.p = c((.5, -1.5))
            elif e == "setrot":
                m.set_rot(1.25)
                ref.rot = 1.25
            elif e == "scribble":
                if isinstance(ref.given, np.ndarray):
                    ref.given += 17
                elif isinstance(ref.given, list):
                    ref.given[0] += 17.
            if e == "vel":  # (waypoints advance when the velocity is evaluated)
                v, w = ref.vel()
                r.expect(np.allclose(m.lin_vel(), v, atol=1e-9) and abs(m.rot_vel() - w) < 1e-9, "velocity", sub,
                         lambda: "%s %s, expected %s %s" % (m.lin_vel(), m.rot_vel(), v, w))
            r.add("transitions")
            r.expect(np.allclose(o.pos(), ref.p, atol=1e-9) and abs(o.rot() - ref.rot) < 1e-9, "pose", sub,
                     lambda: "%s %s, expected %s %s" % (o.pos(), o.rot(), ref.p, ref.rot))
            for a, b in old:
                r.expect(np.array_equal(a, b), "aliased", sub, "a position read earlier changed from %s to %s" % (b, a))
        v, w = ref.vel()
        r.expect(np.allclose(m.lin_vel(), v, atol=1e-9) and abs(m.rot_vel() - w) < 1e-9, "velocity", [seq],
                 lambda: "%s %s, expected %s %s" % (m.lin_vel(), m.rot_vel(), v, w))
        if w == 0:
            u = e2.vel_intertial_frame(np.asarray(ref.p) + (2.5, .3))
            r.expect(np.allclose(u, v, atol=1e-9), "surface-velocity", [seq], lambda: "%s, expected %s" % (u, v))
        pose = [ref.p, ref.rot]
        for ob, ring in ((o, [[0., 0.], [1., 0.], [0., 2.]]), (e2, geo.ellipse_ring((1.001, .501), 20))):
            want = sg.Polygon([geo.to_global(q, pose) for q in ring])
            r.expect(ob.polygon().symmetric_difference(want).area < 1e-9, "polygon", [seq], "")
            q = geo.to_global((.2, .3), pose)
            r.expect(ob.interior_point(q) and ob.exterior_point(q + 7.), "location", [seq], "")
        r.add("states")
        r.add("traces_validated_against_impl")


# ------------------------------------------------------------------------------------------------ C22
class Identity(Check):
    ID = "C22"
    LEVEL = "model_checking"
    RULE = ("every sequence of up to 3 (4 thorough) operations over {create ellipse/polygon/starshaped polygon/combination with automatic, temporary or explicit id; copy as "
            "temporary, duplicate, new, named; dilate with each id mode; change the copy's reference point}; identities compared with a set model, copies with their originals")
    ASSUMPTIONS = ("explicit ids refer to existing ids",)
    OPS = ["ell", "star", "poly", "combi", "temp", "explicit", "copy", "copy_d", "copy_new", "copy_name", "dil", "dil_d", "dil_t", "dil_name", "setxr",
           "bad", "temp_name", "copy_tname", "short"]

    def cases(self, tier):
        d = 4 if tier == "thorough" else 3
        out = []
        for k in ("ell", "star", "poly", "combi", "arrow"):
            for h in itertools.product(self.OPS, repeat=d - 2):
                out.append([k, list(h)])
        return out

    def make(self, k, **kw):
        if k == "ell":
            return Ellipse([1.5, .6], xr=[.2, -.1], n_pol=17, motion_model=mm.Static([1., 2.], .5), **kw)
        if k == "star":
            return StarshapedPolygon(LSHAPE, xr=[.2, .3], motion_model=mm.Static([1., 2.], .5), **kw)
        if k == "arrow":
            return StarshapedPolygon([(0, 0), (2, 1), (4, 0), (2, 4)], motion_model=mm.Static([1., -2.], 1.5), **kw)
        if k == "poly":
            return Polygon(LSHAPE, motion_model=mm.Static([1., 2.], .5), **kw)
        return StarshapedPrimitiveCombination([Ellipse([1.5, .6], id="temp"), StarshapedPolygon([[-1, -1], [1, -1], [0, 1.4]], xr=[0, 0], id="temp")],
                                              None, xr=np.array([.1, .1]), **kw)

    def run(self, case, r):
        k, head = case
        for t in itertools.product(self.OPS, repeat=2):
            r.call(self.trace, k, head + list(t), r, sub=[head + list(t)])
        r.outcome(k)

    def trace(self, k, seq, r):
        o = self.make(k)
        combi = k == "combi"
        used = {o.id()}
        r.expect(isinstance(o.id(), int) and o.id() > 0 and str(o) == str(o.id()), "id", [seq], "first id %s name %s" % (o.id(), o))
        base = vector(o, k != "poly")
        last = None
        for n, e in enumerate(seq):
            sub = [seq[:n + 1]]
            r.add("transitions")
            new, want_id, same = None, "?", False
            if e in ("ell", "star", "poly", "combi"):
                new, want_id = self.make(e), "new"
            elif e == "temp":
                new, want_id = self.make(k, id="temporary"), None
            elif e == "explicit":
                new, want_id = self.make(k, id=o.id(), name="given"), o.id()
                r.expect(str(new) == "given", "name", sub, str(new))
            elif e == "temp_name":
                new, want_id = self.make(k, id="t", name="T"), None
                r.expect(str(new) == "T", "name", sub, str(new))
            elif e == "copy_tname":
                new, want_id, same = o.copy(name="T"), None, True
                r.expect(str(new) == "T", "name", sub, str(new))
            elif e == "short":
                new, want_id = self.make(k, id="n"), "new"
                d = new.copy("d")
                r.expect(d.id() == new.id(), "id", sub, "id %s of the duplicate of %s" % (d.id(), new.id()))
                r.expect(new.copy("temp").id() is None, "id", sub, "")
            elif e == "bad":
                new, want_id = self.make(k, id=10 ** 9), None
            elif e == "copy":
                new, want_id, same = o.copy(), None, True
            elif e == "copy_d":
                new, want_id, same = o.copy("duplicate"), o.id(), True
            elif e == "copy_new":
                new, want_id, same = o.copy("new"), "new", True
            elif e == "copy_name":
                new, want_id, same = o.copy(id="new", name="N"), "new", True
                r.expect(str(new) == "N", "name", sub, str(new))
            elif e.startswith("dil"):
                if combi:
                    continue
                new = o.dilated_obstacle(.2) if e == "dil" else o.dilated_obstacle(.2, name="D") if e == "dil_name" else o.dilated_obstacle(.2, id="duplicate" if e == "dil_d" else "temporary")
                want_id = {"dil": "new", "dil_d": o.id(), "dil_t": None, "dil_name": "new"}[e]
                r.expect(e != "dil_name" or str(new) == "D", "name", sub, str(new))
            elif e == "setxr":
                if last is not None and k != "poly":
                    last.set_xr(np.array([.25, .2]))
            if new is not None:
                if want_id == "new":
                    r.expect(isinstance(new.id(), int) and new.id() > 0 and new.id() not in used, "id-not-unique", sub,
                             "id %s, used %s" % (new.id(), sorted(used)))
                    used.add(new.id())
                else:
                    r.expect(new.id() == want_id, "id", sub, "id %s, expected %s" % (new.id(), want_id))
            if same:
                why = differ(vector(new, k != "poly"), base)
                r.expect(why is None, "copy-differs", sub, str(why))
                r.expect(new is not o and type(new) is type(o), "copy-type", sub, "")
                last = new
        why = differ(vector(o, k != "poly"), base)
        r.expect(why is None, "original-changed", [seq], str(why))
        r.add("states")
        r.add("traces_validated_against_impl")


CHECKS = [Lifecycle(), Motion(), Identity()]
