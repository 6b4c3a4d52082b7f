"""Contact detection, periodic: bodies touch when any periodic images do; the contact refers to exactly that image."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when at least one contact between different periodic images was present and the set of touching pairs changed'
QUICK, THOROUGH = 800, 30000
ASSUMPTIONS = ['bounds of bodies are below 0.35 of the cell and nothing moves more than 0.12 cell per step (within the documented limits of the collider); pairs that touch to within 1e-7 are not judged']


def strategy(tier):
    from hypothesis import strategies as st
    # reduced coordinates: most bodies start in the cell, some in neighbouring periods
    c = st.tuples(st.integers(0, 15), st.sampled_from([0, 0, 0, 0, 1, -1, 3])).map(lambda t: t[0] / 16 + t[1])
    v3 = st.tuples(c, c, c).map(list)
    sp = st.integers(-12, 12).map(lambda x: x / 50)
    vel = st.one_of(st.just([0., 0., 0.]), st.tuples(sp, sp, sp).map(list), st.tuples(sp, sp, sp).map(lambda t: [x * .1 for x in t]))
    body = st.fixed_dictionaries({'shape': st.sampled_from(['s'] * 9 + ['facet']), 'pos': v3, 'vel': vel, 'r': st.sampled_from([.12, .2, .3]), 'mask': st.sampled_from([1, 1, 1, 2, 3]),
                                  'ext': st.tuples(*[st.integers(1, 4).map(lambda x: x / 8)] * 3).map(list), 'ori': st.tuples(*[st.integers(-3, 3)] * 4).map(list),
                                  'ang': st.just([0., 0., 0.]), 'axis': st.just(0)})
    sz = st.tuples(*[st.integers(12, 24).map(lambda x: x / 6)] * 3).map(list)
    e = st.integers(-6, 6).map(lambda x: x / 8)
    skew = st.one_of(st.just([0.] * 9), st.lists(e, min_size=9, max_size=9), st.tuples(e, st.integers(0, 8)).map(lambda t: [t[0] if i == t[1] else 0. for i in range(9)]))
    g = st.integers(-8, 8).map(lambda x: x / 80)
    grad = st.one_of(st.just([0.] * 9), st.lists(g, min_size=9, max_size=9), st.tuples(g, st.integers(0, 8)).map(lambda t: [t[0] if i == t[1] else 0. for i in range(9)]))
    op = st.one_of(st.tuples(st.just('step'), st.integers(1, 8)), st.tuples(st.just('step'), st.integers(1, 8)), st.tuples(st.just('step'), st.integers(1, 3)),
                   st.tuples(st.just('vel'), st.tuples(st.integers(0, 14), vel).map(list)), st.tuples(st.just('add'), st.lists(body, min_size=1, max_size=3)),
                   st.tuples(st.just('erase'), st.integers(0, 14)), st.tuples(st.just('grad'), grad), st.tuples(st.sampled_from(['clear', 'nonreal', 'reload']), st.none())).map(list)
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=2, max_size=12), 'ops': st.lists(op, min_size=2, max_size=9), 'size': sz, 'skew': skew,
                                  'verlet': st.sampled_from([0., 0., -.5, -.2, .02, .05, .1]), 'target': st.sampled_from([50, 50, -1, 1, 5]), 'axis': st.integers(0, 2), 'stc': st.sampled_from([False, False, False, True]),
                                  'homo': st.sampled_from([2, 2, 1]), 'clump': st.one_of(st.just(0), st.just(0), st.integers(2, 3))})


def run(case):
    import numpy as np
    import geom
    import ctypes
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(1)
    from yade import wrapper as W, utils
    from yade.wrapper import Omega
    from minieigen import Vector3, Matrix3
    from c06_collider import make, engines, isc
    O = Omega()
    O.reset()
    O.dt = 1
    O.periodic = True
    h = np.eye(3) + .5 * np.array(case['skew'], float).reshape(3, 3)
    if np.linalg.det(h) < .25:
        h = np.eye(3) + .4 * (h - np.eye(3))
    if np.linalg.det(h) < .25:
        h = np.eye(3)
    h = h @ np.diag(case['size'])
    O.cell.hSize = Matrix3(*[float(x) for x in h.flatten()])
    O.cell.homoDeform = case['homo']
    coll = isc(W, verletDist=case['verlet'], targetInterv=case['target'], sortAxis=case['axis'], sortThenCollide=case['stc'])
    O.engines = engines(coll)
    H = h
    rmin = min([d['r'] for d in case['bodies'] if d['shape'] == 's'] or [0])
    verlet = case['verlet'] if case['verlet'] >= 0 else -case['verlet'] * rmin

    def A(m):
        return np.array([[m[i, j] for j in range(3)] for i in range(3)])
    for d in case['bodies']:
        O.bodies.append(make(O, utils, dict(d, pos=(h @ np.array(d['pos'])).tolist())))
    if case['clump'] and len(O.bodies) >= case['clump'] and all(isinstance(O.bodies[i].shape, W.Sphere) for i in range(case['clump'])):
        for i in range(1, case['clump']):   # bring the members together
            O.bodies[i].state.pos = O.bodies[0].state.pos + Vector3(.1 * i, .05, -.1)
        v = O.bodies[0].state.vel
        cid = O.bodies.clump(list(range(case['clump'])))
        O.bodies[cid].state.blockedDOFs = 'xyzXYZ'
        O.bodies[cid].state.vel = v
    cross = changed = False
    prev = {}

    def limits():
        """documented limits of the collider on the current state"""
        size = np.linalg.norm(H, axis=0)
        un = np.linalg.inv(H / size)
        rows = np.linalg.norm(un, axis=1)
        for b in O.bodies:
            if b is None or b.isClump:
                continue
            if isinstance(b.shape, W.Sphere):
                half = b.shape.radius * (rows ** 2) + verlet * rows
            else:
                R = geom.qmat(b.state.ori)
                v = np.array([un @ (R @ np.array(x)) for x in b.shape.vertices])
                half = (v.max(0) - v.min(0)) / 2 + verlet * rows
            if np.any(2 * half > .35 * size) or np.any(np.abs(un @ np.array(b.state.vel)) > .12 * size):
                return False
        return True
    import itertools
    N27 = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    done = False
    stepno = 0
    for k, (op, a) in enumerate(case['ops']):
        if done:
            break
        ids = [b.id for b in O.bodies if b is not None]
        w = 'op %d (%s): ' % (k, op)
        if op == 'step':
            for m in range(a):
                H = A(O.cell.hSize) + A(O.cell.velGrad) @ A(O.cell.hSize)
                if not limits() or np.linalg.det(H) < .5:
                    done = True
                    break
                bs = {b.id: (np.array(b.state.pos), b, geom.qmat(b.state.ori)) for b in O.bodies if b is not None and not b.isClump}
                O.step()
                stepno += 1
                H = A(O.cell.hSize)
                real = {}
                for i in O.interactions:
                    real[tuple(sorted((i.id1, i.id2)))] = i
                Hi = np.linalg.inv(H)
                L = sorted(bs)
                for x in range(len(L)):
                    for y in range(x):
                        p1, b1, R1 = bs[L[y]]
                        p2, b2, R2 = bs[L[x]]
                        s1, s2 = isinstance(b1.shape, W.Sphere), isinstance(b2.shape, W.Sphere)
                        if not s1 and not s2:
                            continue
                        pair = (L[y], L[x])
                        may = (b1.mask & b2.mask) and not (b1.isClumpMember and b2.isClumpMember and b1.clumpId == b2.clumpId)
                        n0 = np.round(Hi @ (p2 - p1))
                        shifts = (N27 - n0)
                        d = (p2 - p1) + shifts @ H.T
                        if s1 and s2:
                            gaps = np.linalg.norm(d, axis=1) - b1.shape.radius - b2.shape.radius
                        else:
                            f, s = (b1, b2) if s2 else (b2, b1)
                            # position of the sphere relative to the facet for each image
                            rel = d if s2 else -d
                            R = R1 if s2 else R2
                            tri = [R @ np.array(v) for v in f.shape.vertices]
                            gaps = np.array([np.linalg.norm(q - geom.closest_on_triangle(q, *tri)) for q in rel]) - s.shape.radius
                        order = np.argsort(gaps)
                        gap = gaps[order[0]]
                        if abs(gap) < 1e-7 or gaps[order[1]] < 1e-7:
                            prev[pair] = None
                            continue
                        t = bool(gap < 0 and may)
                        if t:
                            check(pair in real, w + 'step %d: bodies %d and %d touch (image %s, depth %g) but have no contact', m, pair[0], pair[1], shifts[order[0]], -gap)
                            I = real[pair]
                            n = shifts[order[0]]
                            want = n if I.id1 == pair[0] else -n
                            check(list(I.cellDist) == [int(z) for z in want], w + 'step %d: contact %s-%s refers to image %s, the bodies touch in %s', m, I.id1, I.id2, I.cellDist, want)
                            if np.any(n != 0):
                                cross = True
                            if s1 and s2:
                                check(abs(I.geom.penetrationDepth + gap) < 1e-9 * (1 + np.abs(p2 - p1).max()), w + 'step %d: depth %g instead of %g', m, I.geom.penetrationDepth, -gap)
                        else:
                            check(pair not in real, w + 'step %d: contact between %d and %d, which do not touch or may not collide (gap %g)', m, pair[0], pair[1], gap)
                        if pair in prev and prev[pair] is not None and prev[pair] != t:
                            changed = True
                        prev[pair] = t
        elif op == 'vel' and ids:
            b = O.bodies[ids[a[0] % len(ids)]]
            if not b.isClumpMember:
                b.state.vel = Vector3(*a[1]) + O.cell.velGrad * b.state.pos
        elif op == 'add':
            for d in a:
                if len(ids) < 20:
                    b = make(O, utils, dict(d, pos=(A(O.cell.hSize) @ np.array(d['pos'])).tolist()))
                    b.state.vel += O.cell.velGrad * b.state.pos
                    O.bodies.append(b)
        elif op == 'erase' and ids:
            b = O.bodies[ids[a % len(ids)]]
            if not b.isClumpMember and not b.isClump:
                O.bodies.erase(b.id)
        elif op == 'grad':
            O.cell.velGrad = Matrix3(*a)
        elif op == 'clear':
            O.interactions.clear()
        elif op == 'nonreal':
            O.interactions.eraseNonReal()
        elif op == 'reload':
            O.saveTmp(quiet=True)
            O.loadTmp(quiet=True)
    labels = (['cross'] if cross else []) + (['changed'] if changed else []) + (['shear'] if any(case['skew']) else []) + ['steps%d' % min(20, stepno // 5 * 5)]
    return {'nt': cross and changed, 'labels': labels}
