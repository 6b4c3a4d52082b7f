"""Clumps: mass, centroid and inertia follow from the members; members move as one rigid body under the sum of their loads."""
from ylib import check, fail, Reject
import math
import newton

RULE = ('a case is non-trivial when the clump has at least two members with different positions and was loaded and moved, or changed by adding or '
        'releasing a member')
QUICK, THOROUGH = 850, 25000
ASSUMPTIONS = ['non-overlapping members have their exact mass properties; overlapping spheres of one density are compared within the resolution of the integration grid']


def strategy(tier):
    from hypothesis import strategies as st
    f = st.integers(-20, 20).map(lambda x: x / 10)
    v = st.tuples(f, f, f).map(list)
    q = st.tuples(*[st.integers(-5, 5)] * 4).map(list)
    member = st.fixed_dictionaries({'kind': st.sampled_from('ssssb'), 'cell': st.tuples(*[st.integers(0, 3)] * 3).map(list), 'off': v,
                                    'r': st.integers(3, 10), 'ext': st.tuples(*[st.integers(2, 9)] * 3).map(list), 'q': q, 'mat': st.integers(0, 2),
                                    'F': v, 'T': v})
    return st.fixed_dictionaries({
        'members': st.lists(member, min_size=1, max_size=6, unique_by=lambda m: tuple(m['cell'])),
        'how': st.sampled_from(['clumped', 'clump', 'addto', 'merge']),
        'overlap': st.sampled_from([0, 0, 0, 8, 14]), 'mixed': st.booleans(),
        'origin': st.sampled_from([0, 0, 10, 300]),
        'release': st.one_of(st.none(), st.integers(0, 5)),
        'steps': st.integers(0, 6), 'clumpF': v, 'clumpT': v, 'dt': st.sampled_from([1e-2, 1e-4, 1e-6, 1e-7]),
        'vel': st.one_of(st.just([0., 0., 0.]), v), 'spin': st.one_of(st.just([0., 0., 0.]), v), 'damping': st.sampled_from([0., 0., .3]), 'damped': st.sampled_from([True, True, False]),
        'g': st.one_of(st.just([0., 0., 0.]), v), 'blocked': st.one_of(st.just(''), st.just(''), st.sets(st.sampled_from('xyzXYZ')).map(lambda s: ''.join(sorted(s)))), 'exact': st.sampled_from([True, True, False]), 'threads': st.booleans()})


def quat(q):
    import numpy as np
    n = math.sqrt(sum(x * x for x in q))
    if n == 0:
        return [1, 0, 0, 0]
    return [x / n for x in q]


def rot(w, x, y, z):
    import numpy as np
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def run(case):
    import numpy as np
    import yade
    from yade.wrapper import Omega, NewtonIntegrator, FrictMat, ForceResetter
    from yade import utils
    from minieigen import Quaternion, Vector3
    O = Omega()
    O.reset()
    ov = case['overlap']
    dens = [1., 2600., 7800.] if not ov else [2000., 2600., 7800.]
    for k, d in enumerate(dens):
        O.materials.append(FrictMat(density=d, label='m%d' % k))
    org = np.array([1., -.7, .4]) * case['origin']
    parts = []
    bodies = []
    for m in case['members']:
        mat = m['mat'] if not ov or case['mixed'] else 0
        if m['kind'] == 's' or ov:
            r = m['r'] / 10
            p = org + np.array(m['cell']) * (.55 if ov else 2.05) * 1. + np.array(m['off']) * (.1 if ov else 0.)
            b = utils.sphere(list(p), r, material='m%d' % mat)
            vol = 4 / 3 * math.pi * r ** 3
            I = np.eye(3) * (.4 * dens[mat] * vol * r * r)
            parts.append(dict(p=p, m=dens[mat] * vol, I=I, r=r, R=np.eye(3), rho=dens[mat]))
        else:
            e = np.array(m['ext']) / 10 / 2
            p = org + np.array(m['cell']) * 2.05
            q = quat(m['q'])
            R = rot(*q)
            b = utils.box(list(p), list(e), orientation=Quaternion(*q), material='m%d' % mat)
            mass = 8 * e.prod() * dens[mat]
            I = R @ np.diag([mass / 3 * (e[1] ** 2 + e[2] ** 2), mass / 3 * (e[0] ** 2 + e[2] ** 2), mass / 3 * (e[0] ** 2 + e[1] ** 2)]) @ R.T
            parts.append(dict(p=p, m=mass, I=I, r=None, R=R, rho=dens[mat]))
        bodies.append(b)
    n = len(bodies)
    how = case['how']
    if how == 'clumped' or n < 3:
        cid, ids = O.bodies.appendClumped(bodies, ov)
    elif how == 'clump':
        ids = O.bodies.append(bodies)
        cid = O.bodies.clump(ids, ov)
    elif how == 'addto':
        ids = O.bodies.append(bodies)
        cid = O.bodies.clump(ids[:2], ov)
        O.bodies.addToClump(ids[2:], cid, ov)
    else:
        ids = O.bodies.append(bodies)
        cid = O.bodies.clump(ids[:1], ov)
        c2 = O.bodies.clump(ids[1:], ov)
        O.bodies.addToClump([c2], cid, ov)
    ids = list(ids)
    act = list(range(n))
    released = None
    if case['release'] is not None and n > 2:
        released = act.pop(case['release'] % n)
        O.bodies.releaseFromClump(ids[released], cid, ov)
    c = O.bodies[cid]

    def ref(sel):
        M = sum(parts[i]['m'] for i in sel)
        C = sum(parts[i]['m'] * parts[i]['p'] for i in sel) / M
        I = np.zeros((3, 3))
        for i in sel:
            d = parts[i]['p'] - C
            I += parts[i]['I'] + parts[i]['m'] * (d @ d * np.eye(3) - np.outer(d, d))
        return M, C, I

    def refgrid(sel, disc):
        lo = np.min([parts[i]['p'] - parts[i]['r'] for i in sel], axis=0)
        hi = np.max([parts[i]['p'] + parts[i]['r'] for i in sel], axis=0)
        dx = min(hi - lo) / disc
        h = max(hi - lo) / 60
        g = [np.arange(lo[k] + h / 2, hi[k], h) for k in range(3)]
        X = np.stack(np.meshgrid(*g, indexing='ij'), -1).reshape(-1, 3)
        rmin, rmax = np.full(len(X), np.inf), np.zeros(len(X))      # where members of different density overlap, either may count
        for i in sel:
            inside = ((X - parts[i]['p']) ** 2).sum(1) < parts[i]['r'] ** 2
            rmin[inside] = np.minimum(rmin[inside], parts[i]['rho'])
            rmax[inside] = np.maximum(rmax[inside], parts[i]['rho'])
        X, rmin, rmax = X[rmax > 0], rmin[rmax > 0], rmax[rmax > 0]
        w = h ** 3 * (rmin + rmax) / 2
        M = w.sum()
        C = (w[:, None] * X).sum(0) / M
        d = X - C
        I = (w * (d ** 2).sum(1)).sum() * np.eye(3) - (w[:, None] * d).T @ d
        return M, C, I, dx, max(hi - lo), (rmax - rmin).sum() * h ** 3 / 2

    def world_inertia():
        R = np.array(c.state.ori.toRotationMatrix()).reshape(3, 3)
        return R @ np.diag(np.array(c.state.inertia)) @ R.T
    inter = ov and any(np.linalg.norm(parts[i]['p'] - parts[j]['p']) < parts[i]['r'] + parts[j]['r'] - .001 * min(parts[i]['r'], parts[j]['r'])
                       for i in act for j in act if i < j)
    pos0 = [np.array(b.state.pos) for b in bodies]
    for i, b in enumerate(bodies):
        check(np.linalg.norm(pos0[i] - parts[i]['p']) <= 1e-12 * (1 + case['origin']), 'clumping moved body %d from %s to %s', i, parts[i]['p'], pos0[i])
    L = 10.
    if inter:
        M, C, I, dx, size, open_ = refgrid(act, ov)
        surf = sum(4 * math.pi * parts[i]['r'] ** 2 * parts[i]['rho'] for i in act)
        tolM = surf * dx * .2 + .02 * M + open_
        check(abs(c.state.mass - M) <= tolM, 'mass of the overlapping clump %g, integration gives %g (tolerance %g)', c.state.mass, M, tolM)
        check(np.linalg.norm(np.array(c.state.pos) - C) <= tolM / M * size, 'centroid %s, integration gives %s', c.state.pos, C)
        W = world_inertia()
        check(abs(W - I).max() <= 3 * tolM / M * abs(I).max(), 'inertia of the overlapping clump\n%s\nintegration gives\n%s', W, I)
        check(c.state.mass < sum(parts[i]['m'] for i in act) + tolM, 'overlaps counted twice')
    else:
        M, C, I = ref(act)
        scale = M * (L + case['origin']) ** 2 * 1e-13 + 1e-9 * abs(I).max()
        check(abs(c.state.mass - M) <= 1e-10 * M, 'clump mass %r, its members weigh %r', c.state.mass, M)
        check(np.linalg.norm(np.array(c.state.pos) - C) <= 1e-10 * (L + case['origin']), 'clump at %s, centroid of its members at %s', c.state.pos, C)
        W = world_inertia()
        check(abs(W - I).max() <= scale * 20, 'inertia tensor of the clump\n%s\nmembers give\n%s', W, I)
    if released is not None:
        b = bodies[released]
        check(b.isStandalone, 'released body is still in the clump')
    # motion
    if case['steps']:
        dt = case['dt']
        O.dt = dt
        g, damping = np.array(case['g']), case['damping']
        O.engines = [ForceResetter(), NewtonIntegrator(damping=damping, gravity=Vector3(*g), exactAsphericalRot=case['exact'])]
        c.state.vel = Vector3(*case['vel'])
        c.state.isDamped = case['damped']
        c.state.blockedDOFs = case['blocked']
        Iw = world_inertia()
        w0 = np.array(case['spin'])
        c.state.angVel = Vector3(*w0)
        c.state.angMom = Vector3(*(Iw @ w0))
        F0, T0 = np.array(case['clumpF']), np.array(case['clumpT'])
        C0 = np.array(c.state.pos)
        O.forces.setPermF(cid, Vector3(*F0))
        O.forces.setPermT(cid, Vector3(*T0))
        for i in range(n):
            O.forces.setPermF(ids[i], Vector3(*case['members'][i]['F']))
            O.forces.setPermT(ids[i], Vector3(*case['members'][i]['T']))
        R0 = np.array(c.state.ori.toRotationMatrix()).reshape(3, 3)
        rel0 = [R0.T @ (pos0[i] - C0) for i in range(n)]
        ori0 = [R0.T @ np.array(b.state.ori.toRotationMatrix()).reshape(3, 3) for b in bodies]
        pi = np.array(c.state.inertia)
        if pi.max() - pi.min() > 1e-6 * pi.max():
            check(c.aspherical, 'a clump with principal inertias %s is not aspherical', pi)
        for k in range(case['steps']):
            s0 = newton.state(c.state)
            if np.linalg.norm(s0['w']) * dt > .5:
                break
            F, T = F0.copy(), T0.copy()
            lever = 0.
            for i in act:
                f, t = np.array(case['members'][i]['F']), np.array(case['members'][i]['T'])
                d = np.array(bodies[i].state.pos) - s0['pos']
                F, T = F + f, T + t + np.cross(d, f)
                lever += np.linalg.norm(d) * np.linalg.norm(f) + np.linalg.norm(t)
            O.step()
            s1 = newton.advance(s0, F, T, c.state.mass, pi, case['blocked'], case['damped'], damping, dt, g, case['exact'] and c.aspherical)
            if damping and (s1['tie'] or np.any((np.abs(T) < 1e-10 * lever) & (T != 0)) or np.any(np.abs(s1['w']) < 1e-9 * np.linalg.norm(s1['w']))):
                break
            w = 'step %d: ' % k
            wt = 1e-13 * (1 + case['origin']) * (lever + 1) / pi.min() * dt      # rounding of the lever arms
            cs = c.state
            check(np.allclose(np.array(cs.vel), s1['vel'], rtol=1e-9, atol=1e-11 * (1 + np.linalg.norm(s1['vel']))), w + 'clump velocity %s, loads give %s', cs.vel, s1['vel'])
            check(np.allclose(np.array(cs.pos), s1['pos'], rtol=0, atol=1e-12 * (L + case['origin']) + 1e-9 * dt * np.linalg.norm(s1['vel'])), w + 'clump position %s, expected %s', cs.pos, s1['pos'])
            check(np.allclose(np.array(cs.angVel), s1['w'], rtol=1e-8, atol=1e-10 * np.linalg.norm(s1['w']) + 1e-15 + wt), w + 'clump angular velocity %s, loads give %s', cs.angVel, s1['w'])
            q1 = newton.state(cs)['q']
            check(abs(abs(q1 @ s1['q']) - 1) < 1e-9, w + 'clump orientation %s, expected %s', q1, s1['q'])
            if s1['asph']:
                check(np.allclose(np.array(cs.angMom), s1['L'], rtol=1e-8, atol=1e-10 * np.linalg.norm(s1['L']) + wt * pi.max()), w + 'angular momentum %s, loads give %s', cs.angMom, s1['L'])
            R = np.array(cs.ori.toRotationMatrix()).reshape(3, 3)
            Cn = np.array(cs.pos)
            check(abs(R @ R.T - np.eye(3)).max() < 1e-9, 'clump orientation is not a rotation any more')
            for i in act:
                s = bodies[i].state
                p = Cn + R @ rel0[i]
                check(np.allclose(np.array(s.pos), p, rtol=0, atol=1e-9 * (L + case['origin'])), 'member %d at %s, rigid motion puts it at %s', i, s.pos, p)
                Rm = np.array(s.ori.toRotationMatrix()).reshape(3, 3)
                check(abs(Rm - R @ ori0[i]).max() < 1e-9, 'member %d does not rotate with the clump', i)
                v = np.array(cs.vel) + np.cross(np.array(cs.angVel), np.array(s.pos) - Cn)
                check(np.allclose(np.array(s.vel), v, rtol=1e-9, atol=1e-9 * (np.linalg.norm(v) + 1e-9)), 'member %d has velocity %s, rigid motion gives %s', i, s.vel, v)
                check(np.allclose(np.array(s.angVel), np.array(cs.angVel), rtol=1e-9, atol=1e-12), 'member %d has angular velocity %s, its clump %s', i, s.angVel, cs.angVel)
    labels = [how, 'overlapping' if inter else 'separate', 'released' if released is not None else 'kept']
    if any(p['r'] is None for p in parts):
        labels.append('boxes')
    return {'nt': n > 1 and (case['steps'] > 0 or released is not None or how in ('addto', 'merge')), 'labels': labels}
