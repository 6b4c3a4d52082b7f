"""Contact detection, aperiodic: every pair of bodies that touches and may collide has a contact, no pair that does not touch has one."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when a pair of bodies that did not touch at first touches later, or touching pairs come apart'
QUICK, THOROUGH = 800, 30000
ENV = {'OMP_NUM_THREADS': '4'}
ASSUMPTIONS = ['bodies move by their velocities (or are teleported when the collider runs in every step); shapes are spheres, boxes, facets and walls; '
               'pairs that touch to within 1e-7 are not judged']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-12, 12).map(lambda x: x / 6)
    v3 = st.tuples(c, c, c).map(list)
    sp = st.integers(-12, 12).map(lambda x: x / 20)
    vel = st.one_of(st.just([0., 0., 0.]), st.tuples(sp, sp, sp).map(list), st.tuples(sp, sp, sp).map(lambda t: [x * .1 for x in t]))
    ang = st.one_of(st.just([0., 0., 0.]), st.just([0., 0., 0.]), st.tuples(sp, sp, sp).map(list))
    body = st.fixed_dictionaries({'shape': st.sampled_from(['s'] * 8 + ['box', 'facet', 'facet', 'wall']), 'pos': v3, 'vel': vel, 'ang': ang,
                                  'r': st.sampled_from([.2, .3, .5]), 'mask': st.sampled_from([1, 1, 1, 2, 3, 4]), 'ext': st.tuples(*[st.integers(1, 8).map(lambda x: x / 8)] * 3).map(list),
                                  'ori': st.one_of(st.just([1, 0, 0, 0]), st.tuples(*[st.integers(-3, 3)] * 4).map(list)), 'axis': st.integers(0, 2)})
    op = st.one_of(st.tuples(st.just('step'), st.integers(1, 8)), st.tuples(st.just('step'), st.integers(1, 8)), st.tuples(st.just('step'), st.integers(1, 3)),
                   st.tuples(st.just('vel'), st.tuples(st.integers(0, 14), vel, ang).map(list)), st.tuples(st.just('add'), st.lists(body, min_size=1, max_size=3)),
                   st.tuples(st.just('erase'), st.integers(0, 14)), st.tuples(st.just('move'), st.tuples(st.integers(0, 14), v3).map(list)),
                   st.tuples(st.sampled_from(['resort', 'clear', 'nonreal', 'reload']), st.none()), st.tuples(st.just('many'), st.integers(0, 1000)),
                   st.tuples(st.just('refill'), st.tuples(st.integers(0, 14), body).map(list)), st.tuples(st.just('restart'), st.lists(body, min_size=1, max_size=6))).map(list)
    small = st.fixed_dictionaries({'kind': st.just('small'), 'bodies': st.lists(body, min_size=1, max_size=10), 'ops': st.lists(op, min_size=1, max_size=10),
                                   'collider': st.sampled_from(['isc'] * 6 + ['stc', 'sqs', 'grid']), 'verlet': st.sampled_from([0., 0., -.5, -.1, .05, .3, .3, 1.]),
                                   'target': st.sampled_from([50, 50, -1, 0, 1, 5]), 'minsweep': st.sampled_from([.1, 0., .5]), 'axis': st.integers(0, 2),
                                   'clump': st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 9), min_size=2, max_size=4, unique=True)),
                                   'avoid': st.sampled_from([0, 0, 0, 1, 2]), 'thr': st.sampled_from([1, 1, 1, 3])})
    big = st.fixed_dictionaries({'kind': st.just('big'), 'n': st.integers(1000, 1400), 'seed': st.integers(0, 10**6), 'thr': st.sampled_from([1, 2, 3, 4]), 'steps': st.integers(2, 5),
                                 'speed': st.sampled_from([.02, .1, .5]), 'verlet': st.sampled_from([.02, .1, -.5]), 'shape': st.sampled_from([[1, 1, 1], [1, 1, 1], [6, 1, .2], [.2, 6, 1]]),
                                 'jump': st.sampled_from([0, 1, 2, 3, 4])})
    return st.integers(0, 99).flatmap(lambda k: big if k < 2 else small)


def make(O, utils, d, bound=True):
    from minieigen import Vector3, Quaternion
    from yade.wrapper import Wall
    import numpy as np
    q = np.array(d['ori'], float)
    q = q / np.linalg.norm(q) if np.linalg.norm(q) else np.array([1., 0, 0, 0])
    p = Vector3(*d['pos'])
    if d['shape'] == 's':
        b = utils.sphere(p, d['r'])
    elif d['shape'] == 'box':
        b = utils.box(p, Vector3(*d['ext']), orientation=Quaternion(*q))
    elif d['shape'] == 'wall':
        b = utils.wall(p, d['axis'])
    else:
        e = d['ext']
        b = utils.facet([Vector3(0, 0, 0), Vector3(2 * e[0], 0, .1), Vector3(.2, 2 * e[1], e[2])])
        b.state.pos = p
        b.state.ori = Quaternion(*q)
    b.mask = d['mask']
    b.state.blockedDOFs = 'xyzXYZ'
    b.state.vel = Vector3(*d['vel'])
    b.state.angVel = Vector3(*d['ang']) if d['shape'] != 'wall' else Vector3(0, 0, 0)
    return b


def touching(b1, b2):
    """True/False, or None when it cannot be told; gap between two bodies at their current positions"""
    import numpy as np
    import geom
    from yade.wrapper import Sphere, Box, Facet, Wall
    if not isinstance(b1.shape, Sphere):
        b1, b2 = b2, b1
    if not isinstance(b1.shape, Sphere):
        return None
    p, r = np.array(b1.state.pos), b1.shape.radius
    o = np.array(b2.state.pos)
    if isinstance(b2.shape, Sphere):
        gap = np.linalg.norm(p - o) - r - b2.shape.radius
    elif isinstance(b2.shape, Box):
        gap = geom.dist_box(p, o, geom.qmat(b2.state.ori), np.array(b2.shape.extents)) - r
    elif isinstance(b2.shape, Wall):
        gap = abs(p[b2.shape.axis] - o[b2.shape.axis]) - r
    else:
        R = geom.qmat(b2.state.ori)
        v = [o + R @ np.array(x) for x in b2.shape.vertices]
        gap = np.linalg.norm(p - geom.closest_on_triangle(p, *v)) - r
    return None if abs(gap) < 1e-7 else bool(gap < 0)


def run(case):
    import ctypes
    omp = ctypes.CDLL('libgomp.so.1')
    omp.omp_set_num_threads(case['thr'] if case['kind'] == 'big' or case['thr'] > 1 else 1)
    from yade import wrapper as W
    try:
        return big(case) if case['kind'] == 'big' else small(case)
    finally:
        W.InsertionSortCollider().avoidSelfInteractionMask = 0   # shared by all colliders


def engines(coll):
    from yade import wrapper as W
    return [W.ForceResetter(), coll,
            W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Facet_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom(), W.Ig2_Wall_Sphere_ScGeom()],
                              [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]),
            W.NewtonIntegrator(damping=0)]


def isc(W, **kw):
    return W.InsertionSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb(), W.Bo1_Facet_Aabb(), W.Bo1_Wall_Aabb()], **kw)


def small(case):
    import numpy as np
    from yade import wrapper as W, utils
    from yade.wrapper import Omega
    from minieigen import Vector3
    O = Omega()
    O.reset()
    O.dt = 1
    kind = case['collider']
    always = kind in ('sqs',) or (kind in ('isc', 'stc') and case['verlet'] == 0)
    if kind == 'sqs':
        coll = W.SpatialQuickSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb(), W.Bo1_Facet_Aabb(), W.Bo1_Wall_Aabb()])
    elif kind == 'grid':
        coll = W.FlatGridCollider(verletDist=max(0, case['verlet']), aabbMin=Vector3(-2, -1, -3), aabbMax=Vector3(2, 2, 1.5), step=.45)
    else:
        coll = isc(W, verletDist=case['verlet'], targetInterv=case['target'], minSweepDistFactor=case['minsweep'], sortAxis=case['axis'], sortThenCollide=(kind == 'stc'))
    O.engines = engines(coll)
    coll.avoidSelfInteractionMask = case['avoid']
    # a negative verletDist is computed once from the radii at the first run
    spheres_only = kind == 'grid'

    def ok(d):
        return not spheres_only or d['shape'] == 's'
    for d in case['bodies']:
        if ok(d):
            O.bodies.append(make(O, utils, d))
    n = len(O.bodies)
    cl = sorted({i % n for i in case['clump']}) if n and not spheres_only else []
    cl = [i for i in cl if O.bodies[i] and isinstance(O.bodies[i].shape, W.Sphere)]
    cid = None
    if len(cl) > 1:
        vel, ang = O.bodies[cl[0]].state.vel, O.bodies[cl[0]].state.angVel
        cid = O.bodies.clump(cl)
        s = O.bodies[cid].state
        s.blockedDOFs = 'xyzXYZ'
        s.vel, s.angVel = vel, ang
    state = {}
    begun = ended = False
    dirty_slot = False
    steps = 0

    def expected():
        bs = [b for b in O.bodies if b is not None and not b.isClump]
        ids = [b.id for b in bs]
        masks = [b.mask for b in bs]
        clumps = [b.clumpId if b.isClumpMember else -1 for b in bs]
        sph = [isinstance(b.shape, W.Sphere) for b in bs]
        pos = np.array([b.state.pos for b in bs], float).reshape(-1, 3)
        rad = np.array([b.shape.radius if s else 0 for b, s in zip(bs, sph)])
        gap = np.sqrt(((pos[:, None] - pos[None]) ** 2).sum(-1)) - rad[:, None] - rad[None]
        e = {}
        for x in range(len(bs)):
            for y in range(x):
                if sph[x] and sph[y]:
                    g = gap[x, y]
                    if g > 1e-7:
                        continue
                    t = None if g > -1e-7 else True
                elif sph[x] or sph[y]:
                    t = touching(bs[x], bs[y])
                else:
                    t = None
                m1, m2 = masks[x], masks[y]
                may = (m1 & m2) != 0 and not (m1 == m2 and m1 & case['avoid']) and not (clumps[x] >= 0 and clumps[x] == clumps[y])
                if t is None:
                    e[(ids[y], ids[x])] = None
                elif t and may:
                    e[(ids[y], ids[x])] = True
        return e
    for k, (op, a) in enumerate(case['ops']):
        w = 'op %d (%s): ' % (k, op)
        ids = [b.id for b in O.bodies if b is not None]
        if op == 'step':
            for m in range(a):
                e = expected()
                O.step()
                steps += 1
                real = {}
                for i in O.interactions:
                    real[tuple(sorted((i.id1, i.id2)))] = True
                for p, t in e.items():
                    if t:
                        check(p in real, w + 'step %d: bodies %d (%s) and %d (%s) touch but have no contact', m, p[0], type(O.bodies[p[0]].shape).__name__, p[1], type(O.bodies[p[1]].shape).__name__)
                        if p not in state and steps > 1:
                            begun = True
                for p in real:
                    check(p in e, w + 'step %d: bodies %d and %d have a contact although they do not touch or may not collide', m, *p)
                if any(state[p] and p not in e for p in state):
                    ended = True
                state = e
        elif op == 'vel' and ids:
            b = O.bodies[ids[a[0] % len(ids)]]
            if not b.isClumpMember:
                b.state.vel = Vector3(*a[1])
                if not isinstance(b.shape, W.Wall):
                    b.state.angVel = Vector3(*a[2])
        elif op == 'add':
            for d in a:
                if ok(d) and len(ids) < 25:
                    O.bodies.append(make(O, utils, d))
        elif op == 'many' and len(O.bodies) < 30:
            import random
            rnd = random.Random(a)
            for j in range(105):
                O.bodies.append(make(O, utils, dict(shape='s', pos=[rnd.uniform(-6, 6) for _ in '123'], vel=[rnd.uniform(-.3, .3) for _ in '123'], ang=[0, 0, 0], r=.2, mask=1, ori=[1, 0, 0, 0])))
        elif op == 'erase' and ids:
            b = O.bodies[ids[a % len(ids)]]
            if not b.isClumpMember and not b.isClump:
                O.bodies.erase(b.id)
        elif op == 'refill' and ok(a[1]):
            free = [i for i in range(len(O.bodies)) if O.bodies[i] is None]
            if free:
                i = free[a[0] % len(free)]
                check(O.bodies.insertAtId(make(O, utils, a[1]), i) == i, w + 'a body cannot be put in the free slot %d', i)
        elif op == 'restart':
            O.bodies.clear()
            O.interactions.clear()
            state = {}
            for d in a:
                if ok(d):
                    O.bodies.append(make(O, utils, d))
        elif op == 'move' and ids and always:
            b = O.bodies[ids[a[0] % len(ids)]]
            if not b.isClumpMember and not b.isClump:
                b.state.pos = Vector3(*a[1])
        elif op == 'resort' and kind in ('isc', 'stc'):
            coll.doSort = True
        elif op == 'clear':
            O.interactions.clear()
        elif op == 'nonreal':
            O.interactions.eraseNonReal()
        elif op == 'reload' and kind != 'grid':
            O.saveTmp(quiet=True)
            O.loadTmp(quiet=True)
            coll = O.engines[1]
    return {'nt': begun or ended, 'labels': [kind, 'verlet' if case['verlet'] else 'noverlet'] + (['begun'] if begun else []) + (['ended'] if ended else []) + (['clump'] if cid is not None else [])}


def big(case):
    import numpy as np, random
    from yade import wrapper as W, utils
    from yade.wrapper import Omega
    from minieigen import Vector3
    O = Omega()
    O.reset()
    O.dt = 1
    coll = isc(W, verletDist=case['verlet'])
    O.engines = engines(coll)
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    box = np.array(case['shape'], float)
    box *= (n * .35 / np.prod(box)) ** (1 / 3) * 1.4
    pos = rng.uniform(0, 1, (n, 3)) * box
    r = rng.uniform(.2, .4, n)
    sp = case['speed']
    vel = rng.uniform(-sp, sp, (n, 3)) * rng.choice([1, 1, .1, 0], (n, 1))
    for i in range(n):
        b = utils.sphere(Vector3(*pos[i]), r[i])
        b.state.blockedDOFs = 'xyzXYZ'
        b.state.vel = Vector3(*vel[i])
        O.bodies.append(b)
    prev = None
    changed = 0
    for s in range(case['steps']):
        pos = np.array([O.bodies[i].state.pos for i in range(n)], float)
        O.step()
        d = np.sqrt(((pos[:, None, :] - pos[None, :, :]) ** 2).sum(-1)) - r[:, None] - r[None, :]
        want = {(int(i), int(j)) for i, j in zip(*np.nonzero(d < -1e-7)) if i < j}
        maybe = {(int(i), int(j)) for i, j in zip(*np.nonzero(np.abs(d) <= 1e-7)) if i < j}
        got = {tuple(sorted((i.id1, i.id2))) for i in O.interactions}
        if want - got:
            fail('step %d: %d touching pairs have no contact, e.g. %s', s, len(want - got), sorted(want - got)[0])
        if got - want - maybe:
            fail('step %d: %d contacts between bodies that do not touch, e.g. %s', s, len(got - want - maybe), sorted(got - want - maybe)[0])
        if prev is not None and prev != want:
            changed += 1
        prev = want
        if case['jump']:
            for i in rng.integers(0, n, 5 if case['jump'] == 1 else 40):    # along one axis the other two orders do not change
                j = rng.uniform(-1, 1, 3) * box * (.3 if case['jump'] == 1 else .8)
                O.bodies[int(i)].state.vel = Vector3(*[x if case['jump'] in (1, k + 2) else 0. for k, x in enumerate(j)])
    return {'nt': changed > 0, 'labels': ['big', 'threads%d' % case['thr']]}
