"""Bounding boxes: whenever contacts are detected, the box of a body contains the body."""
from ylib import check, fail, Reject
from geom import qmat

RULE = 'a case is non-trivial when a body moved or rotated and the bounds were kept over at least one step, or the cell is skewed, or a non-spherical body is rotated'
QUICK, THOROUGH = 1500, 50000
ASSUMPTIONS = ['boxes, walls, polyhedra and tetrahedra are not put in skewed cells (not supported); with striding the cell either keeps its shape or only boxes updated in the step are judged']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-100, 100).map(lambda x: x / 100)
    v3 = st.tuples(c, c, c).map(list)
    z = st.just([0., 0., 0.])
    body = st.fixed_dictionaries({'shape': st.sampled_from(['sphere', 'sphere', 'facet', 'box', 'wall', 'poly', 'tetra', 'grid', 'clump']), 'pos': v3, 'q': st.tuples(c, c, c, c).map(list), 'pts': st.lists(v3, min_size=4, max_size=4),
                                  'r': st.integers(10, 60).map(lambda x: x / 100), 'ext': st.tuples(*[st.integers(5, 80)] * 3).map(lambda t: [x / 100 for x in t]), 'vel': st.one_of(z, z, v3), 'ang': st.one_of(z, v3), 'f': v3})
    e = st.integers(-7, 7).map(lambda x: x / 8)
    skew = st.one_of(st.just([0.] * 9), st.lists(e, min_size=9, max_size=9), st.tuples(e, st.integers(0, 8)).map(lambda t: [t[0] if i == t[1] else 0. for i in range(9)]))
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=1, max_size=5), 'cell': st.one_of(st.none(), skew), 'grad': st.one_of(st.just(None), st.lists(e, min_size=9, max_size=9)), 'verlet': st.sampled_from([0., -.5, .05, .2, .5]),
                                  'target': st.sampled_from([50, -1, 3]), 'msd': st.sampled_from([.1, .5]), 'factor': st.sampled_from([-1., 1., 1.5]), 'steps': st.integers(1, 12), 'dt': st.sampled_from([.003, .03, .1]), 'change': st.one_of(st.none(), st.integers(1, 8))})


def run(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3, Quaternion, Matrix3
    O = w.Omega()
    O.reset()
    V = lambda x: Vector3(*map(float, x))
    A = lambda x: np.array(x, float)
    mat = O.materials.append(w.FrictMat(young=1e3, density=1))
    H = None
    if case['cell'] is not None:
        sk = A(case['cell']).reshape(3, 3)
        H = np.eye(3) + .5 * sk
        if np.linalg.det(H) < .2:
            H = np.eye(3) + .2 * sk
        O.periodic = True
        O.cell.hSize = Matrix3(*(H * 8).flatten())
        if case['grad']:
            O.cell.velGrad = Matrix3(*[x * .2 for x in case['grad']])
    skewed = H is not None and (bool(np.abs(H - np.diag(np.diag(H))).max() > 0) or case['grad'])

    def quat(q):
        Q = Quaternion(*q)
        if Q.norm() < .1:
            Q = Quaternion(1, 0, 0, 0)
        Q.normalize()
        return Q
    members = []  # (id, function giving support points and radius)
    hasSphere = False
    for d in case['bodies']:
        sh = d['shape']
        if skewed and sh in ('box', 'wall', 'poly', 'tetra'):
            sh = 'facet'
        if H is not None and sh == 'wall':
            sh = 'box'
        pts = [A(p) for p in d['pts']]
        vol = abs(np.linalg.det(np.array([pts[1] - pts[0], pts[2] - pts[0], pts[3] - pts[0]])))
        area = np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0]))
        if sh in ('poly', 'tetra') and vol < .05:
            sh = 'sphere'
        if sh == 'facet' and area < .05:
            sh = 'sphere'
        if sh == 'grid' and (case['verlet'] or H is not None):  # neither periodic cells nor striding of its own
            sh = 'sphere'
        if sh == 'grid' and np.linalg.norm(pts[0] - pts[1]) < .2:
            sh = 'sphere'
        p = A(d['pos'])
        if sh == 'sphere':
            b = utils.sphere(V(p), d['r'], material=mat)
        elif sh == 'facet':
            b = utils.facet([V(p + x) for x in pts[:3]], dynamic=True, material=mat)
            b.state.mass, b.state.inertia = 1, Vector3(1, 1.5, 2)
            b.state.blockedDOFs = ''
            b.aspherical = True
        elif sh == 'box':
            b = utils.box(V(p), V(d['ext']), material=mat)
        elif sh == 'wall':
            b = utils.wall(V(p), int(d['r'] * 100) % 3, material=mat)
        elif sh == 'poly':
            b = w.Body()
            b.shape = w.Polyhedra(v=[V(x) for x in pts])
            b.shape.GetVolume()
            utils._commonBodySetup(b, 1., Vector3(1, 1.5, 2), mat, pos=V(p), noBound=False)
            b.aspherical = True
            b.state.pos = V(p)
        elif sh == 'tetra':
            b = utils.tetra([V(p + x) for x in pts], strictCheck=False, material=mat)
        if sh == 'grid':
            from yade import gridpfacet as gp
            i1 = O.bodies.append(gp.gridNode(V(p + pts[0]), d['r'] / 3, dynamic=True, material=mat))
            i2 = O.bodies.append(gp.gridNode(V(p + pts[1]), d['r'] / 3, dynamic=True, material=mat))
            O.bodies[i1].state.vel, O.bodies[i2].state.vel = V(d['vel']), V(A(d['vel']) * .5 + A(d['ang']))
            for i in (i1, i2):
                O.bodies[i].state.mass, O.bodies[i].state.inertia = 1, Vector3(1, 1, 1)
            g = w.Body()
            g.shape = w.GridConnection(radius=d['r'] / 3)
            g.shape.node1, g.shape.node2 = O.bodies[i1], O.bodies[i2]
            utils._commonBodySetup(g, 1., Vector3(1, 1, 1), mat, pos=V(p), dynamic=False, fixed=True)
            gi = O.bodies.append(g)
            members.append((gi, lambda i1=i1, i2=i2, r=d['r'] / 3: ([A(O.bodies[i1].state.pos), A(O.bodies[i2].state.pos)], r)))
            continue
        if sh == 'clump':
            bs = [utils.sphere(V(p + .5 * x), d['r'] * (1 + .1 * k), material=mat) for k, x in enumerate(pts[:3])]
            cid, ids = O.bodies.appendClumped(bs)
            O.bodies[cid].state.vel, O.bodies[cid].state.angVel = V(d['vel']), V(d['ang'])
            for i in ids:
                members.append((i, lambda i=i: ([A(O.bodies[i].state.pos)], O.bodies[i].shape.radius)))
            hasSphere = True
            continue
        if sh not in ('wall', 'facet', 'tetra'):
            b.state.ori = quat(d['q'])
        b.state.vel = V(d['vel'])
        if sh != 'wall':
            b.state.angVel = V(d['ang'])
            if b.aspherical:
                Q = b.state.ori
                b.state.angMom = Q * V(A(b.state.inertia) * A(Q.conjugate() * V(d['ang'])))
        i = O.bodies.append(b)
        if d['vel'] != [0., 0., 0.] and sh in ('box',):
            O.bodies[i].state.blockedDOFs = 'xyzXYZ'
        elif sh != 'wall':
            O.forces.setPermF(i, V(A(d['f']) * .3 * b.state.mass))
        if sh == 'sphere':
            hasSphere = True
            members.append((i, lambda i=i, f=max(1., case['factor']): ([A(O.bodies[i].state.pos)], O.bodies[i].shape.radius * f)))
        elif sh == 'box':
            cs = [A([x, y, z]) * A(d['ext']) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
            members.append((i, lambda i=i, cs=cs: ([A(O.bodies[i].state.pos) + qmat(O.bodies[i].state.ori) @ c for c in cs], 0.)))
        elif sh == 'wall':
            ax = b.shape.axis
            members.append((i, lambda i=i, ax=ax: ([A([s if k != ax else O.bodies[i].state.pos[ax] for k in range(3)]) for s in (-1e9, 1e9)], 0.)))
        else:
            def f(i=i, sh=sh):
                B = O.bodies[i]
                vs = B.shape.vertices if sh == 'facet' else B.shape.v
                return [A(B.state.pos) + qmat(B.state.ori) @ A(x) for x in vs], 0.
            members.append((i, f))
    if case['verlet'] < 0 and not hasSphere:
        raise Reject
    newton = w.NewtonIntegrator(damping=0)
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=case['factor']), w.Bo1_Facet_Aabb(), w.Bo1_Box_Aabb(), w.Bo1_Wall_Aabb(), w.Bo1_Polyhedra_Aabb(), w.Bo1_Tetra_Aabb(), w.Bo1_GridConnection_Aabb()],
                 verletDist=case['verlet'], targetInterv=case['target'], minSweepDistFactor=case['msd'], allowBiggerThanPeriod=True), newton]
    O.dt = case['dt']
    kept = False
    for step in range(case['steps']):
        if step == case['change']:
            for i, _ in members:
                if not O.bodies[i].isClumpMember:
                    O.bodies[i].state.vel = -2 * O.bodies[i].state.vel
        ext = [(i, f()) for i, f in members]
        it = O.iter
        O.step()
        U = np.linalg.inv(A([[O.cell.shearTrsf[a, b] for b in range(3)] for a in range(3)])) if H is not None else np.eye(3)
        for i, (pts, r) in ext:
            bd = O.bodies[i].bound
            check(bd is not None, 'body %d has no bound', i)
            fresh = bd.lastUpdateIter == it
            if not fresh:
                kept = True
                if case['grad'] and H is not None:
                    continue
            half = r * np.linalg.norm(U, axis=1)
            u = [U @ p for p in pts]
            lo, hi = np.min(u, axis=0) - half, np.max(u, axis=0) + half
            mn, mx = A(bd.min), A(bd.max)
            tol = 1e-9
            check(bool(np.all(mn <= lo + tol)) and bool(np.all(mx >= hi - tol)), 'step %d: body %d (%s) reaches from %s to %s, its box only from %s to %s%s', step, i, O.bodies[i].shape.__class__.__name__, lo, hi, mn, mx, '' if fresh else ' (updated in step %d)' % bd.lastUpdateIter)
    return {'nt': kept or bool(skewed) or any(d['shape'] not in ('sphere', 'wall') for d in case['bodies']), 'labels': sorted({d['shape'] for d in case['bodies']}) + (['kept'] if kept else []) + (['skewed'] if skewed else [])}
