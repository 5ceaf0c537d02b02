"""Affine reference: 2x3 row-vector transforms, exact float arithmetic on tuples.

A transform is (a, b, c, d, e, f): x' = a*x + c*y + e ; y' = b*x + d*y + f.
`inner(T, S)` is "apply S first, then T": the way each encoder command refines
the coordinate system in which *future* source coordinates are given.
"""
import math

IDENTITY = (1, 0, 0, 1, 0, 0)


def apply(t, x, y):
    a, b, c, d, e, f = t
    return (a * x + c * y + e, b * x + d * y + f)


def inner(t, s):
    """p -> t(s(p))"""
    ta, tb, tc, td, te, tf = t
    sa, sb, sc, sd, se, sf = s
    return (
        ta * sa + tc * sb,
        tb * sa + td * sb,
        ta * sc + tc * sd,
        tb * sc + td * sd,
        ta * se + tc * sf + te,
        tb * se + td * sf + tf,
    )


def translation(tx, ty):
    return (1, 0, 0, 1, tx, ty)


def scaling(sx, sy, x=0, y=0):
    return (sx, 0, 0, sy, x - sx * x, y - sy * y)


def rotation(deg, x=0, y=0):
    r = math.radians(deg)
    ct, st = math.cos(r), math.sin(r)
    # x' = x ct - y st ; y' = x st + y ct
    return (ct, st, -st, ct, x - x * ct + y * st, y - x * st - y * ct)


def invert(t):
    a, b, c, d, e, f = t
    det = a * d - b * c
    ia, ib, ic, id_ = d / det, -b / det, -c / det, a / det
    return (ia, ib, ic, id_, -(ia * e + ic * f), -(ib * e + id_ * f))
