"""Small constructors from plain data to mmcore objects (imported by the checks)."""
import numpy as np

from mmcore.geom.nurbs import NURBSCurve, NURBSSurface


def curve(P, w, U, p):
    return NURBSCurve(np.ascontiguousarray(np.c_[P, w]), p, np.ascontiguousarray(U))


def surf(H, Uu, Uv, pu, pv):
    return NURBSSurface(np.ascontiguousarray(H), (int(pu), int(pv)), np.ascontiguousarray(Uu), np.ascontiguousarray(Uv))


def cdata(c):
    """(P, w, U, p) of a curve as plain copies"""
    H = np.array(c.control_pointsw)
    return H[:, :3].copy(), H[:, 3].copy(), np.array(c.knots), int(c.degree)


def sdata(s):
    d = s.degree
    return np.array(s.control_points_w), np.array(s.knots_u), np.array(s.knots_v), int(d[0]), int(d[1])
