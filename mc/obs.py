"""Builds obstacles of the code under test from JSON specs, and pure reference shapes for the same specs."""
import math
from fractions import Fraction

import numpy as np
import shapely
import shapely.geometry as sg

from . import geo

from obstacles import Ellipse, Obstacle, Polygon, StarshapedPolygon, StarshapedPrimitiveCombination, Frame
from obstacles import motion_model as mm

G, O = Frame.GLOBAL, Frame.OBSTACLE

# lattice polygons that are not starshaped, or that hide exterior points from infinity (scale 1)
NAMED = {
    "U": [(0, 0), (4, 0), (4, 3), (3, 3), (3, 1), (1, 1), (1, 3), (0, 3)],
    "L": [(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)],
    "Z": [(0, 0), (2, 0), (2, 2), (3, 2), (3, 3), (1, 3), (1, 1), (0, 1)],
    "comb": [(0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
    "spiral": [(0, 0), (5, 0), (5, 5), (1, 5), (1, 2), (3, 2), (3, 3), (2, 3), (2, 4), (4, 4), (4, 1), (0, 1)],
    "hook": [(0, 0), (5, 0), (5, 4), (1, 4), (1, 2), (2, 2), (2, 3), (4, 3), (4, 1), (0, 1)],
    "G": [(0, 0), (4, 0), (4, 2), (2, 2), (2, 1), (1, 1), (1, 3), (4, 3), (4, 4), (0, 4)],
    "arrow": [(0, 0), (2, 1), (4, 0), (2, 4)],
    "star4": [(0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2)],
    "plus": [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (2, 2), (2, 3), (1, 3), (1, 2), (0, 2), (0, 1), (1, 1)],
}
AXES = [(1., 1.), (2., 1.), (.5, 3.), (.25, .125), (2.5, .8)]


def model(pose):
    return None if pose is None else mm.Static(pose[0], pose[1])


def poly(verts, pose=None, star=False, xr=None, **kw):
    v = [[float(x), float(y)] for x, y in verts]
    if star:
        return StarshapedPolygon(v, xr=None if xr is None else np.array(xr, float), motion_model=model(pose), **kw)
    return Polygon(v, motion_model=model(pose), **kw)


def ell(a, pose=None, xr=None, **kw):
    return Ellipse(list(a), xr=None if xr is None else np.array(xr, float), motion_model=model(pose), **kw)


def fl(p):
    return np.array([float(p[0]), float(p[1])])


def exact_pose(pose):
    """Poses whose transform of multiples of 1/8 is exact in floating point."""
    return pose is None or pose[1] == 0
