"""One step of the documented leap-frog scheme, in numpy (quaternions are w,x,y,z)."""
import math
import numpy as np


def rot(w, x, y, z):
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def qmul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])


def qrot(r):
    n = np.linalg.norm(r)
    if n == 0:
        return np.array([1., 0, 0, 0])
    return np.concatenate([[math.cos(n / 2)], math.sin(n / 2) * r / n])


def unnorm(q, v):
    """Rotation of v by a quaternion as Eigen applies it (no normalisation)."""
    u = q[1:]
    uv = 2 * np.cross(u, v)
    return v + q[0] * uv + np.cross(u, uv)


def state(s):
    """numpy copy of a yade State"""
    return dict(pos=np.array(s.pos), vel=np.array(s.vel), w=np.array(s.angVel), L=np.array(s.angMom), q=np.array([s.ori[3], s.ori[0], s.ori[1], s.ori[2]]))


def advance(s, F, T, mass, I, bl, damped, damping, dt, g, aspherical, moved=True, mv=None, rt=None):
    """the next state; also under 'free' whether a free degree of freedom was accelerated, under 'asph' whether the aspherical scheme applied"""
    s = dict(s)
    mv = np.zeros(3) if mv is None else mv
    rt = np.zeros(3) if rt is None else rt
    useA = aspherical and not any(c in bl for c in 'XYZ')
    free, tie = False, False
    asphT = T.copy()

    def damp(a, v):
        x = a * (v + .5 * dt * a)
        nonlocal tie
        tie = tie or bool(np.any((np.abs(v + .5 * dt * a) <= 1e-10 * (np.abs(v) + np.abs(dt * a))) & (a != 0)))
        return a * (1 - damping * np.sign(x))
    if set(bl) != set('xyzXYZ'):
        a = np.where([c in bl for c in 'xyz'], 0., F / mass + g)
        free = bool(np.any(a))
        if damped:
            a = damp(a, s['vel'])
        s['vel'] = s['vel'] + dt * a
        if not useA:
            al = np.where([c in bl for c in 'XYZ'], 0., T / I)
            free = free or bool(np.any(al))
            if damped:
                al = damp(al, s['w'])
            s['w'] = s['w'] + dt * al
        elif damped:
            asphT = T * (1 - damping * np.sign(T * s['w']))
    s['pos'] = s['pos'] + mv + (dt * s['vel'] if moved else 0)
    if not useA:
        if moved:
            s['q'] = qmul(qrot(s['w'] * dt), s['q'])
            s['q'] = qmul(qrot(rt), s['q'])
    else:
        R = rot(*s['q'])
        ln = s['L'] + dt / 2 * asphT
        wb = (R.T @ ln) / I
        qh = s['q'] + dt / 2 * .5 * qmul(s['q'], np.concatenate([[0], wb]))
        s['L'] = s['L'] + dt * asphT
        wh = (R.T @ s['L']) / I
        if moved:
            s['q'] = s['q'] + dt * .5 * qmul(qh, np.concatenate([[0], wh]))
            s['w'] = unnorm(s['q'], wh)
            s['q'] = qmul(qrot(rt), s['q'])
        else:
            s['w'] = None
    s['q'] = s['q'] / np.linalg.norm(s['q'])
    s['free'], s['asph'], s['tie'] = free, useA, tie
    return s
