"""Contact geometry: overlap, normal, contact point, relative motion and rotation of a contact are those of the two bodies."""
from ylib import check, fail, Reject
from geom import qmat
import math

RULE = 'a case is non-trivial when the two bodies were in contact in at least one step'
QUICK, THOROUGH = 2100, 60000
ASSUMPTIONS = ['two bodies, one of them a sphere; walls do not rotate and are approached from the side they act on; the centre of the sphere is not closer than 1e-4 to a surface where the normal is undefined']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-100, 100).map(lambda x: x / 100)
    v3 = st.tuples(c, c, c).map(list)
    q = st.tuples(c, c, c, c).map(list)
    tri = st.tuples(v3, v3, v3).map(list)
    where = st.fixed_dictionaries({'bary': st.tuples(*[st.integers(-6, 12)] * 2).map(list), 'dir': v3, 'gap': st.integers(-130, 20).map(lambda x: x / 100)})
    return st.fixed_dictionaries({'other': st.sampled_from(['sphere', 'facet', 'facet', 'box', 'wall']), 'g': st.sampled_from(['sc', 'sc', 'sc6', 'l3', 'l6']), 'order': st.booleans(), 'r': st.integers(20, 100).map(lambda x: x / 100),
                                  'r2': st.integers(10, 150).map(lambda x: x / 100), 'tri': tri, 'ext': st.tuples(*[st.integers(10, 120)] * 3).map(lambda t: [x / 100 for x in t]), 'axis': st.integers(0, 2), 'sense': st.integers(-1, 1),
                                  'pos': v3, 'q': q, 'qs': q, 'at': where, 'v': v3, 'w': v3, 'vs': v3, 'ws': v3, 'steps': st.integers(1, 4), 'dt': st.sampled_from([1e-3, 2e-2, .1]), 'flag': st.booleans(),
                                  'per': st.one_of(st.none(), st.none(), st.tuples(*[st.integers(-2, 2)] * 3).map(list)), 'shear': st.booleans(), 'factor': st.sampled_from([1., 1., 1.2, 1.5]), 'rot': st.booleans(), 'scale': st.sampled_from([1., 1., 1e-4, 1e4])})


def closest_on_triangle(p, a, b, c):
    """Ericson, Real-time collision detection 5.1.5"""
    ab, ac, ap = b - a, c - a, p - a
    d1, d2 = ab @ ap, ac @ ap
    if d1 <= 0 and d2 <= 0:
        return a
    bp = p - b
    d3, d4 = ab @ bp, ac @ bp
    if d3 >= 0 and d4 <= d3:
        return b
    vc = d1 * d4 - d3 * d2
    if vc <= 0 and d1 >= 0 and d3 <= 0:
        return a + d1 / (d1 - d3) * ab
    cp = p - c
    d5, d6 = ab @ cp, ac @ cp
    if d6 >= 0 and d5 <= d6:
        return c
    vb = d5 * d2 - d1 * d6
    if vb <= 0 and d2 >= 0 and d6 <= 0:
        return a + d2 / (d2 - d6) * ac
    va = d3 * d6 - d5 * d4
    if va <= 0 and d4 - d3 >= 0 and d5 - d6 >= 0:
        return b + (d4 - d3) / ((d4 - d3) + (d5 - d6)) * (c - b)
    den = 1 / (va + vb + vc)
    return a + ab * vb * den + ac * vc * den


def run(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3, Quaternion, Matrix3
    O = w.Omega()
    O.reset()
    kind, g = case['other'], case['g']
    S = case['scale'] if kind != 'wall' else 1.
    if g == 'l6' and kind != 'sphere' or g == 'l3' and kind == 'box' or g == 'sc6' and kind == 'wall':
        raise Reject
    V = lambda x: Vector3(*map(float, x))
    A = lambda x: np.array(x, float)

    def quat(q):
        Q = Quaternion(*q)
        if Q.norm() < .1:
            Q = Quaternion(1, 0, 0, 0)
        Q.normalize()
        return Q
    r = case['r'] * S
    mat = O.materials.append(w.FrictMat(young=1e3, poisson=.3, frictionAngle=.5, density=1))
    pos = A(case['pos']) * S
    d = A(case['at']['dir'])
    n = np.linalg.norm(d)
    d = d / n if n > .1 else A([0, 0, 1.])
    fixed = None
    if kind == 'sphere':
        r2 = case['r2'] * S
        fixed = utils.sphere(V(pos), r2, material=mat)
        fixed.state.ori = quat(case['q'])
        sph = pos + d * (r + r2 + case['at']['gap'] * min(r, r2))
    elif kind == 'facet':
        T = [A(t) * 2 * S for t in case['tri']]
        area = np.linalg.norm(np.cross(T[1] - T[0], T[2] - T[0]))
        if area < .05 * S * S or min(np.linalg.norm(T[i] - T[i - 1]) for i in range(3)) < .1 * S:
            raise Reject
        T = [t + pos for t in T]
        fixed = utils.facet([V(t) for t in T], material=mat)
        u, v = [x / 6 for x in case['at']['bary']]
        nn = np.cross(T[1] - T[0], T[2] - T[0])
        nn /= np.linalg.norm(nn)
        sph = T[0] + u * (T[1] - T[0]) + v * (T[2] - T[0]) + nn * (r * (1 + case['at']['gap'])) * (1 if case['flag'] else -1)
    elif kind == 'box':
        fixed = utils.box(V(pos), V(A(case['ext']) * S), material=mat)
        fixed.state.ori = quat(case['q'])
        R = np.array(qmat(fixed.state.ori))
        e = A(case['ext']) * S
        t = min(e[i] / abs(d[i]) if d[i] else 1e30 for i in range(3))
        sph = pos + R @ (d * (t + r * (1 + case['at']['gap'])))
    else:
        fixed = utils.wall(V(pos), case['axis'], sense=case['sense'], material=mat)
        s = case['sense'] or (1 if case['flag'] else -1)
        sph = pos + A([1.5, -1, .5])
        sph[case['axis']] = pos[case['axis']] + s * r * max(.05, 1 + case['at']['gap'])
    ball = utils.sphere(V(sph), r, material=mat)
    ball.state.ori = quat(case['qs'])
    ball.state.vel, ball.state.angVel = V(A(case['vs']) * S), V(case['ws'])
    fixed.state.vel = V(A(case['v']) * S)
    if kind != 'wall':
        fixed.state.angVel = V(case['w'])
    ids = O.bodies.append([fixed, ball] if case['order'] else [ball, fixed])
    fi, bi = ids if case['order'] else ids[::-1]
    H, shiftv, D = None, A([0, 0, 0]), np.zeros((3, 3))
    if case['per'] and kind != 'wall':
        O.periodic = True
        L = 12 * S
        hs = np.diag([L, 1.1 * L, .9 * L])
        if case['shear'] and kind == 'sphere':
            hs[0, 1], hs[1, 2] = .3 * L, -.2 * L
        O.cell.hSize = Matrix3(*hs.flatten())
        H = hs
        if case['rot']:
            D = np.array([[.1, 0, .2], [0, -.1, .05], [0, .1, 0]])
            O.cell.velGrad = Matrix3(*D.flatten())
            O.cell.homoDeform = 0
        O.bodies[bi].state.pos = V(sph + H @ A(case['per']))
    if g in ('sc', 'sc6'):
        six = '6D' if g == 'sc6' else ''
        gf = {'sphere': lambda: getattr(w, 'Ig2_Sphere_Sphere_ScGeom' + six)(avoidGranularRatcheting=case['flag'], interactionDetectionFactor=case['factor']), 'facet': lambda: getattr(w, 'Ig2_Facet_Sphere_ScGeom' + six)(),
              'box': lambda: getattr(w, 'Ig2_Box_Sphere_ScGeom' + six)(), 'wall': lambda: w.Ig2_Wall_Sphere_ScGeom(noRatch=case['flag'])}[kind]()
        law = w.Law2_ScGeom_FrictPhys_CundallStrack(neverErase=False, sphericalBodies=False)
    else:
        gf = {'sphere': lambda: getattr(w, 'Ig2_Sphere_Sphere_%sGeom' % g.upper())(distFactor=case['factor'], noRatch=case['flag']), 'facet': lambda: w.Ig2_Facet_Sphere_L3Geom(noRatch=case['flag']), 'wall': lambda: w.Ig2_Wall_Sphere_L3Geom(noRatch=case['flag'])}[kind]()
        law = w.Law2_L3Geom_FrictPhys_ElPerfPl() if g == 'l3' else w.Law2_L6Geom_FrictPhys_Linear(charLen=1)
    O.dt = case['dt']
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=case['factor']), w.Bo1_Facet_Aabb(), w.Bo1_Box_Aabb(), w.Bo1_Wall_Aabb()], verletDist=0, allowBiggerThanPeriod=True), w.InteractionLoop([gf], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [law])]
    touched, hot, was, ori0 = 0, 0, False, None
    for step in range(case['steps']):
        B, Fx = O.bodies[bi].state, O.bodies[fi].state
        x = A(B.pos)
        vb, wb, vf, wf = A(B.vel), A(B.angVel), A(Fx.vel), A(Fx.angVel)
        fp, Rf = A(Fx.pos), np.array(qmat(Fx.ori))
        if H is not None:
            if step:
                H = np.array([[O.cell.hSize[i, j] for j in range(3)] for i in range(3)])
            H = H + O.dt * (np.array([[O.cell.velGrad[i, j] for j in range(3)] for i in range(3)]) @ H)
        # images around the one of the ball nearest to the other body in reduced coordinates (everything is much smaller than the cell)
        near = [] if H is None else [range(int(m) - 1, int(m) + 2) for m in np.rint(np.linalg.solve(H, x - fp))]
        cells = [np.zeros(3)] if H is None else [np.array([a, b, c]) for a in near[0] for b in near[1] for c in near[2]]
        best = None
        for k in cells:
            y = x - (H @ k if H is not None else 0)
            if kind == 'sphere':
                dd = y - fp
                dist = np.linalg.norm(dd)
                cand = (r + r2 - dist, dd / dist, fp + dd / dist * (r2 - .5 * (r + r2 - dist)), y, k)
            elif kind == 'facet':
                T = [fp + Rf @ A(t) for t in O.bodies[fi].shape.vertices]
                q = closest_on_triangle(y, *T)
                dd = y - q
                dist = np.linalg.norm(dd)
                if dist < 1e-4 * S:
                    raise Reject
                nn = dd / dist
                pd = r - dist
                cand = (pd, nn, y - nn * (r - .5 * pd) if g[0] == 's' else q, y, k)
            elif kind == 'box':
                e = A(O.bodies[fi].shape.extents)
                loc = Rf.T @ (y - fp)
                q = np.clip(loc, -e, e)
                if np.all(q == loc):
                    dep = e - np.abs(loc)
                    o = np.sort(dep)
                    if o[1] - o[0] < 1e-4 * S or o[0] < 1e-4 * S:
                        raise Reject
                    m = int(np.argmin(dep))
                    nl = np.zeros(3)
                    nl[m] = 1. if loc[m] > 0 else -1.
                    nn = Rf @ nl
                    pd = r + dep[m]
                    cand = (pd, nn, y + nn * .5 * (dep[m] - r), y, k)
                else:
                    dd = Rf @ (loc - q)
                    dist = np.linalg.norm(dd)
                    if dist < 1e-4 * S:
                        raise Reject
                    nn = dd / dist
                    pd = r - dist
                    cand = (pd, nn, y - nn * (r - .5 * pd), y, k)
            else:
                a = case['axis']
                dist = y[a] - fp[a]
                if dist * s < 1e-4:
                    raise Reject
                nn = np.zeros(3)
                nn[a] = 1 if dist > 0 else -1
                q = y.copy()
                q[a] = fp[a]
                cand = (r - abs(dist), nn, q, y, k)
            if best is None or cand[0] > best[0]:
                best, second = cand, best
        pd, nn, cp, y, k = best
        thr = -((case['factor'] - 1) * (r + r2) if kind == 'sphere' else 0.)
        if min(abs(pd - thr), abs(pd)) < 1e-7 * S:
            raise Reject
        O.step()
        I = [i for i in O.interactions if i.isReal]
        # the laws used here let go of contacts without overlap, except Law2_L6Geom_FrictPhys_Linear
        if g == 'l6' and pd <= 0 and (was or pd > thr):
            break
        check(len(I) == (1 if pd > 0 else 0), 'step %d: %d contacts found, overlap is %g', step, len(I), pd)
        if pd <= 0:
            was = False
        else:
            i = I[0]
            touched += 1
            gm = i.geom
            sgn = 1 if i.id2 == bi else -1
            if kind != 'sphere':
                check(i.id2 == bi, 'the sphere is not the second body of the contact')
            cell = A(i.cellDist)
            if H is not None:
                check(np.array_equal(cell * -sgn, k), 'step %d: image %s, expected %s', step, cell, -sgn * k)
            tol = 1e-9 * S * 20
            un = gm.penetrationDepth if g[0] == 's' else -gm.u[0]
            check(abs(un - pd) <= tol, 'step %d: overlap %r, expected %r', step, un, pd)
            check(np.abs(A(gm.normal) - sgn * nn).max() <= 1e-8, 'step %d: normal %s, expected %s', step, gm.normal, sgn * nn)
            # the contact is seen from body 1
            off = H @ k if H is not None and sgn < 0 else 0
            check(np.abs(A(gm.contactPoint) - cp - off).max() <= tol * 10, 'step %d: contact point %s, expected %s', step, gm.contactPoint, cp + off)
            if g[0] == 's':
                # incident velocity of body 2 with respect to body 1 at the contact point
                # an image of the ball moves with the cell
                vimg = vb - (D @ (H @ k) if H is not None and step >= 0 and D.any() and O.cell.homoDeform > 0 else 0)
                rel = (vimg + np.cross(wb, cp - y)) - (vf + np.cross(wf, cp - fp))
                if kind in ('sphere', 'wall') and case['flag']:
                    ra, rb = (r2, r) if kind == 'sphere' else (r, r)
                    al = (ra + rb) / (ra + rb - pd)
                    rel = al * (vimg - vf) + np.cross(wb, -rb * nn) - np.cross(wf, ra * nn)
                rel = rel * sgn
                sh = (rel - nn * (rel @ nn)) * O.dt
                check(np.abs(A(gm.shearInc) - sh).max() <= 1e-8 * S * (1 + np.abs(rel).max() / S), 'step %d: shear increment %s, expected %s', step, gm.shearInc, sh)
            else:
                tr = np.array([[gm.trsf[a, b] for b in range(3)] for a in range(3)])
                check(np.abs(tr[0] - sgn * nn).max() <= 1e-8, 'step %d: first local axis %s is not the normal %s', step, tr[0], sgn * nn)
            f, t = A(O.forces.f(bi)), A(O.forces.t(bi))
            f2, t2 = A(O.forces.f(fi)), A(O.forces.t(fi))
            sc = np.abs(f).max() + 1e-30
            check(np.abs(f + f2).max() <= 1e-9 * sc, 'step %d: forces do not cancel', step)
            if H is None:
                check(np.abs(t + np.cross(y, f) + t2 + np.cross(fp, f2)).max() <= 1e-9 * sc * S * 20, 'step %d: moments about the origin do not cancel: %s', step, t + np.cross(y, f) + t2 + np.cross(fp, f2))
            if g == 'sc6':
                o1, o2 = [np.array(qmat(O.bodies[q].state.ori)) for q in (i.id1, i.id2)]
                if not was:
                    ori0 = (o1, o2)
                else:
                    M = o1 @ ori0[0].T @ ori0[1] @ o2.T
                    tr = max(-1., min(1., (np.trace(M) - 1) / 2))
                    ang = math.acos(tr)
                    ax = A([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]])
                    rv = ax / 2 * (ang / math.sin(ang) if ang > 1e-6 else 1)
                    if ang < 3:
                        check(abs(gm.twist - rv @ (sgn * nn)) <= 1e-6, 'step %d: twist %r, expected %r', step, gm.twist, rv @ (sgn * nn))
                        check(np.abs(A(gm.bending) - (rv - (rv @ nn) * nn)).max() <= 1e-6, 'step %d: bending %s, expected %s', step, gm.bending, rv - (rv @ nn) * nn)
            was = True
        # the bodies move as their velocities say
        for st, av, vv in ((B, wb, vb), (Fx, wf, vf)):
            st.pos = st.pos + V(vv) * O.dt
            a = np.linalg.norm(av)
            if a > 1e-12:
                dq = Quaternion(V(av / a), float(a * O.dt))
                Q = dq * st.ori
                Q.normalize()
                st.ori = Q
    return {'nt': touched > 0, 'labels': [kind + ':' + g, 'periodic' if H is not None else 'open']}
