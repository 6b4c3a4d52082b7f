"""Reference geometry (numpy), independent of yade."""
import numpy as np


def qmat(q):
    """rotation matrix of a minieigen quaternion (or any object with [0..2]=xyz, [3]=w)"""
    x, y, z, w = [float(q[i]) for i in range(4)]
    n = x * x + y * y + z * z + w * w
    s = 2 / n
    return np.array([[1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y)],
                     [s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x)],
                     [s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y)]])


def closest_on_triangle(p, a, b, c):
    """closest point of triangle abc to p (Ericson)"""
    ab, ac, ap = b - a, c - a, p - a
    d1, d2 = ab @ ap, ac @ ap
    if d1 <= 0 and d2 <= 0:
        return a
    bp = p - b
    d3, d4 = ab @ bp, ac @ bp
    if d3 >= 0 and d4 <= d3:
        return b
    vc = d1 * d4 - d3 * d2
    if vc <= 0 and d1 >= 0 and d3 <= 0:
        return a + ab * (d1 / (d1 - d3))
    cp = p - c
    d5, d6 = ab @ cp, ac @ cp
    if d6 >= 0 and d5 <= d6:
        return c
    vb = d5 * d2 - d1 * d6
    if vb <= 0 and d2 >= 0 and d6 <= 0:
        return a + ac * (d2 / (d2 - d6))
    va = d3 * d6 - d5 * d4
    if va <= 0 and d4 - d3 >= 0 and d5 - d6 >= 0:
        return b + (c - b) * ((d4 - d3) / ((d4 - d3) + (d5 - d6)))
    den = 1 / (va + vb + vc)
    return a + ab * (vb * den) + ac * (vc * den)


def dist_box(p, centre, R, ext):
    """signed-free distance from p to a solid box (0 inside)"""
    l = R.T @ (p - centre)
    return np.linalg.norm(np.maximum(np.abs(l) - ext, 0))
