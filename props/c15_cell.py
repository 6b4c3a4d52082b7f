"""Periodic cell: shape, transformation and bodies follow the imposed velocity gradient exactly; every derived quantity agrees with the shape."""
from ylib import check, fail
import math

RULE = 'a case is non-trivial when at least two steps were made under a nonzero velocity gradient, or the cell is sheared and points were wrapped'
QUICK, THOROUGH = 2300, 60000
ASSUMPTIONS = ['bodies without contacts; the size of the time step times the velocity gradient stays below 0.2; the cell is not degenerate']


def strategy(tier):
    from hypothesis import strategies as st
    e = st.one_of(st.just(0.), st.integers(-16, 16).map(lambda x: x / 8))
    mat = st.one_of(st.lists(e, min_size=9, max_size=9), st.just([0.] * 9), st.lists(st.integers(-8, 8).map(lambda x: x / 8), min_size=3, max_size=3).map(lambda d: [d[0], 0, 0, 0, d[1], 0, 0, 0, d[2]]))
    v = st.tuples(*[st.integers(-40, 40).map(lambda x: x / 8)] * 3).map(list)
    sz = st.tuples(*[st.integers(1, 24).map(lambda x: x / 4)] * 3).map(list)
    skew = st.lists(st.integers(-6, 6).map(lambda x: x / 8), min_size=9, max_size=9)
    op = st.one_of(
        st.tuples(st.just('velGrad'), mat), st.tuples(st.just('next'), mat), st.tuples(st.just('step'), st.integers(1, 6)), st.tuples(st.just('step'), st.integers(1, 6)),
        st.tuples(st.just('wrap'), v), st.tuples(st.just('wrap'), v), st.tuples(st.just('size'), sz), st.tuples(st.just('hSize'), st.tuples(sz, skew).map(list)),
        st.tuples(st.just('box'), sz), st.tuples(st.just('trsf'), skew), st.tuples(st.just('homo'), st.integers(0, 2)), st.tuples(st.just('measures'), st.none()),
        st.tuples(st.just('force'), st.tuples(st.integers(0, 2), v).map(list))).map(list)
    body = st.fixed_dictionaries({'pos': v, 'vel': st.one_of(st.just([0., 0., 0.]), v), 'mass': st.sampled_from([.5, 1., 4.]), 'blocked': st.sampled_from(['', '', 'x', 'yz', 'xyzXYZ', 'XY'])})
    return st.fixed_dictionaries({'ops': st.lists(op, min_size=1, max_size=14), 'bodies': st.lists(body, max_size=3), 'dt': st.sampled_from([.05, 1 / 64, 1e-3]),
                                  'init': st.tuples(sz, st.one_of(st.just([0.] * 9), skew)).map(list), 'damping': st.sampled_from([0., 0., .3]), 'g': st.one_of(st.just([0., 0., 0.]), v)})


def run(case):
    import numpy as np
    from yade.wrapper import Omega, NewtonIntegrator, Body
    from minieigen import Vector3, Matrix3
    from ylib import Reject
    I = np.eye(3)

    def M(a):
        a = np.array(a, float).reshape(3, 3)
        return Matrix3(*[float(x) for x in a.flatten()])

    def A(m):
        return np.array([[m[i, j] for j in range(3)] for i in range(3)])

    def shape(d):
        h = I + np.array(d[1], float).reshape(3, 3) * .5
        if np.linalg.det(h) < .2:
            h = I + (h - I) * .2
        if np.linalg.det(h) < .05:
            h = I
        return h @ np.diag(d[0])
    O = Omega()
    O.reset()
    O.periodic = True
    dt = O.dt = case['dt']
    g = np.array(case['g'])
    O.engines = [NewtonIntegrator(damping=case['damping'], gravity=Vector3(*g))]
    h = shape(case['init'])
    O.cell.hSize = M(h)
    F = A(O.cell.trsf)
    L = np.zeros((3, 3))
    pending = None
    prevL = np.zeros((3, 3))
    homo = O.cell.homoDeform
    check(homo == 2, 'the default of homoDeform is %s', homo)
    B = []
    for d in case['bodies']:
        b = Body()
        b.state.mass = d['mass']
        b.state.inertia = Vector3(1, 1, 1)
        b.state.pos = Vector3(*d['pos'])
        b.state.vel = Vector3(*d['vel'])
        b.state.blockedDOFs = d['blocked']
        O.bodies.append(b)
        B.append(dict(d, x=np.array(d['pos']), v=np.array(d['vel'], float), w=np.zeros(3), f=np.zeros(3)))
    moved = 0
    sheared = False

    def near(got, want, what, tol=1e-9):
        got, want = np.asarray(got, float), np.asarray(want, float)
        check(got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol * (1 + np.abs(want).max())), '%s is %s, expected %s', what, got.tolist(), want.tolist())

    def verify(what):
        c = O.cell
        near(A(c.hSize), h, what + ': hSize')
        near(c.size, np.linalg.norm(h, axis=0), what + ': size')
        near(c.volume, np.linalg.det(h), what + ': volume', 1e-8)
        near(A(c.shearTrsf), h / np.linalg.norm(h, axis=0), what + ': shearTrsf')
        near(A(c.unshearTrsf) @ A(c.shearTrsf), I, what + ': unshearTrsf*shearTrsf', 1e-7)
        near(A(c.velGrad), L, what + ': velGrad')
        near(A(c.trsf), F, what + ': trsf')
    for k, (op, a) in enumerate(case['ops']):
        w = 'op %d (%s)' % (k, op)
        c = O.cell
        if op == 'velGrad':
            c.velGrad = M(a)
            pending = np.array(a, float).reshape(3, 3)
        elif op == 'next':
            # assigning components of nextVelGrad, as documented; a zero matrix asks for nothing
            cur = A(c.nextVelGrad)
            near(cur, pending if pending is not None else 0 * I, w + ': nextVelGrad')
            continue
        elif op == 'size':
            c.size = Vector3(*a)
            h = h / np.linalg.norm(h, axis=0) * np.array(a)
        elif op == 'hSize':
            h = shape(a)
            c.hSize = M(h)
            F = A(c.trsf)
        elif op == 'box':
            h = np.diag(a).astype(float)
            if k % 2:
                c.setBox(Vector3(*a))
            else:
                c.setBox(*[float(x) for x in a])
            F = A(c.trsf)
        elif op == 'trsf':
            F = I + np.array(a).reshape(3, 3) * .3
            c.trsf = M(F)
        elif op == 'homo':
            homo = c.homoDeform = a
        elif op == 'force':
            i, f = a
            if i < len(B):
                O.forces.setPermF(i, Vector3(*f))
                B[i]['f'] = np.array(f)
            continue
        elif op == 'wrap':
            x = np.array(a)
            p = np.array(c.wrap(Vector3(*x)))
            s = np.linalg.solve(h, p)
            check(np.all(s > -1e-9) and np.all(s < 1 + 1e-9), w + ': wrapped point %s is outside the cell %s', p, h)
            n = np.linalg.solve(h, x - p)
            near(n, np.round(n), w + ': number of periods', 1e-8)
            size = np.linalg.norm(h, axis=0)
            q = np.array(c.wrapPt(Vector3(*x)))
            check(np.all(q > -1e-9 * size) and np.all(q <= size * (1 + 1e-12)), w + ': wrapPt %s outside %s', q, size)
            near((x - q) / size, np.round((x - q) / size), w + ': periods of wrapPt', 1e-8)
            near(c.unshearPt(Vector3(*x)), size * np.linalg.solve(h, x), w + ': unshearPt', 1e-8)
            near(c.shearPt(Vector3(*x)), h @ (x / size), w + ': shearPt', 1e-8)
            near(c.shearPt(c.unshearPt(Vector3(*x))), x, w + ': shearPt(unshearPt)', 1e-8)
            if np.abs(h - np.diag(np.diag(h))).max() > 0:
                sheared = True
            continue
        elif op == 'measures':
            if np.linalg.det(F) <= .05 or np.linalg.cond(F) > 1e3:
                continue
            near(A(c.getDefGrad()), F, w + ': getDefGrad')
            near(A(c.getSmallStrain()), .5 * (F + F.T) - I, w + ': getSmallStrain')
            near(A(c.getRCauchyGreenDef()), F.T @ F, w + ': getRCauchyGreenDef')
            near(A(c.getLCauchyGreenDef()), F @ F.T, w + ': getLCauchyGreenDef')
            near(A(c.getLagrangianStrain()), .5 * (F.T @ F - I), w + ': getLagrangianStrain')
            near(A(c.getEulerianAlmansiStrain()), .5 * (I - np.linalg.inv(F @ F.T)), w + ': getEulerianAlmansiStrain', 1e-7)
            R, U = [A(m) for m in c.getPolarDecOfDefGrad()]
            near(R @ U, F, w + ': R*U', 1e-8)
            near(R @ R.T, I, w + ': R*R^T', 1e-8)
            near(U, U.T, w + ': U and its transpose', 1e-8)
            check(np.linalg.eigvalsh(U).min() > 0 and np.linalg.det(R) > 0, w + ': U is not positive or R no rotation')
            near(A(c.getRotation()), R, w + ': getRotation')
            near(A(c.getLeftStretch()), U, w + ': getLeftStretch')
            near(A(c.getRightStretch()), F @ R.T, w + ': getRightStretch', 1e-8)
            W = .5 * (L - L.T)
            near(c.getSpin(), [W[2, 1], W[0, 2], W[1, 0]], w + ': getSpin')
            h0 = np.linalg.solve(F, h)
            near(A(c.hSize0), h0, w + ': hSize0', 1e-7)
            near(c.refSize, np.linalg.norm(h0, axis=0), w + ': refSize', 1e-7)
            continue
        elif op == 'step':
            for n in range(a):
                # the cell is transformed first, then bodies are moved with the gradient valid from now on
                h = h + dt * L @ h
                F = F + dt * L @ F
                if pending is not None:
                    L, pending = pending, None
                dL = L - prevL
                O.step()
                if np.any(L) and n:
                    moved += 1
                W = .5 * (dL - dL.T)
                for i, d in enumerate(B):
                    s = O.bodies[i].state
                    fl = d['v'] - prevL @ d['x']
                    if d['blocked'] != 'xyzXYZ':
                        acc = np.where([ch in d['blocked'] for ch in 'xyz'], 0., d['f'] / d['mass'] + g)
                        if case['damping']:
                            arg = acc * (fl + .5 * dt * acc)
                            amb = (np.abs(arg) < 1e-9 * (1 + np.abs(acc) * np.abs(fl).max())) & (acc != 0)
                            acc = acc * (1 - case['damping'] * np.sign(arg))
                        else:
                            amb = np.zeros(3, bool)
                        v = d['v'] + dt * acc
                    else:
                        v, amb = d['v'].copy(), np.zeros(3, bool)
                    if homo == 2:
                        v = v + dt * prevL @ d['v']
                    if homo:
                        v = v + dL @ d['x']
                        d['w'] = d['w'] + np.array([W[2, 1], W[0, 2], W[1, 0]])
                    got = np.array(s.vel)
                    v = np.where(amb, got, v)
                    near(got, v, '%s step %d body %d: velocity' % (w, n, i))
                    near(s.pos, d['x'] + dt * v, '%s step %d body %d: position' % (w, n, i))
                    near(s.angVel, d['w'], '%s step %d body %d: angular velocity' % (w, n, i))
                    d['x'], d['v'], d['w'] = np.array(s.pos), got, np.array(s.angVel)
                prevL = L.copy()
                verify('%s step %d' % (w, n))
                h, F = A(O.cell.hSize), A(O.cell.trsf)
                if np.linalg.det(h) < 1e-3 or np.abs(h).max() > 1e3 or np.abs(L).max() * dt > .2:
                    raise Reject('degenerate')
            continue
        verify(w)
    labels = ['homo%d' % homo]
    return {'nt': moved >= 2 or sheared, 'labels': labels + (['moved'] if moved else [])}
