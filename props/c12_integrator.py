"""Equations of motion: every step advances each body by the documented leap-frog scheme from the loads acting on it."""
from ylib import check, fail
import math

RULE = 'a case is non-trivial when at least one body has a load or gravity on a free degree of freedom and at least two steps were made'
QUICK, THOROUGH = 2200, 60000
ENV = {'OMP_NUM_THREADS': '2'}
ASSUMPTIONS = ['bodies without contacts; loads are prescribed through the force container; aperiodic scene; a mask restricts motion by velocity, '
               'not prescribed displacements']


def strategy(tier):
    from hypothesis import strategies as st
    f = st.one_of(st.integers(-30, 30).map(lambda x: x / 8), st.just(0.))
    v = st.tuples(f, f, f).map(list)
    body = st.fixed_dictionaries({
        'mass': st.sampled_from([.5, 1., 3., 1000.]), 'inertia': st.one_of(st.integers(1, 9).map(lambda x: [x / 4] * 3), st.tuples(*[st.integers(1, 12).map(lambda x: x / 4)] * 3).map(list)),
        'pos': v, 'vel': v, 'angVel': v, 'angMom': v, 'q': st.tuples(*[st.integers(-4, 4)] * 4).map(list),
        'blocked': st.one_of(st.just(''), st.just(''), st.sets(st.sampled_from('xyzXYZ')).map(lambda s: ''.join(sorted(s))), st.just('xyzXYZ')),
        'damped': st.booleans(), 'asph': st.booleans(), 'mask': st.integers(1, 7), 'scal': st.sampled_from([1., 1., .5]),
        'F': v, 'T': v, 'move': st.one_of(st.none(), v), 'rot': st.one_of(st.none(), v)})
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=1, max_size=4), 'dt': st.sampled_from([1., .125, 1e-3, 1e-5]),
                                  'damping': st.sampled_from([0., .2, .5, 1.]), 'gravity': v, 'exact': st.booleans(), 'mask': st.sampled_from([-1, 0, 0, 1, 2, 6]),
                                  'steps': st.integers(1, 8), 'scaling': st.booleans(), 'fchange': st.integers(0, 3)})


def run(case):
    import numpy as np
    import yade
    from yade.wrapper import Omega, NewtonIntegrator, Body, State
    from yade import utils
    from minieigen import Quaternion, Vector3
    from c14_clumps import rot
    O = Omega()
    O.reset()
    dt, damping, g, mask = case['dt'], case['damping'], np.array(case['gravity']), case['mask']
    O.dt = dt
    nt = NewtonIntegrator(damping=damping, gravity=Vector3(*g), exactAsphericalRot=case['exact'], mask=mask)
    O.engines = [nt]
    scal_on = case['scaling']
    if scal_on:
        nt.densityScaling = True
        scal_on = False      # without a time stepper in the engines the flag must not take effect
    S = []
    for d in case['bodies']:
        b = Body()
        s = b.state
        s.mass = d['mass']
        s.inertia = Vector3(*d['inertia'])
        s.pos = Vector3(*d['pos'])
        s.vel = Vector3(*d['vel'])
        s.angVel = Vector3(*d['angVel'])
        s.angMom = Vector3(*d['angMom'])
        q = np.array(d['q'], float)
        q = q / np.linalg.norm(q) if np.linalg.norm(q) else np.array([1., 0, 0, 0])
        s.ori = Quaternion(*q)
        s.blockedDOFs = d['blocked']
        s.isDamped = d['damped']
        s.densityScaling = d['scal']
        b.aspherical = d['asph']
        b.mask = d['mask']
        i = O.bodies.append(b)
        S.append(dict(pos=np.array(d['pos'], float), vel=np.array(d['vel'], float), w=np.array(d['angVel'], float), L=np.array(d['angMom'], float), q=q))

    def qmul(a, b):
        w1, x1, y1, z1 = a
        w2, x2, y2, z2 = b
        return np.array([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                         w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2])

    def qrot(r):
        n = np.linalg.norm(r)
        if n == 0:
            return np.array([1., 0, 0, 0])
        return np.concatenate([[math.cos(n / 2)], math.sin(n / 2) * r / n])

    def sgn(x):
        return np.sign(x)
    # a vanishing damping argument has an ambiguous sign: such cases are compared only as long as no component is close to it
    free = False
    for step in range(case['steps']):
        fac = 1 if step % 4 >= case['fchange'] else -1
        moves = False
        O.forces.reset(False)
        for i, d in enumerate(case['bodies']):
            O.forces.setPermF(i, Vector3(*[fac * x for x in d['F']]))
            O.forces.setPermT(i, Vector3(*d['T']))
            if d['move'] and step % 2 == 0:
                O.forces.addMove(i, Vector3(*d['move']))
            if d['rot'] and step % 2 == 0:
                O.forces.addRot(i, Vector3(*d['rot']))
        O.step()
        for i, d in enumerate(case['bodies']):
            s = S[i]
            F, T = fac * np.array(d['F'], float), np.array(d['T'], float)
            moved = mask <= 0 or (d['mask'] & mask) != 0
            I = np.array(d['inertia'])
            bl = d['blocked']
            useA = case['exact'] and d['asph'] and not any(c in bl for c in 'XYZ')
            asphT = T.copy()
            if set(bl) != set('xyzXYZ'):
                a = F / d['mass'] + g
                a = np.where([c in bl for c in 'xyz'], 0., a)
                if np.any(a):
                    free = True
                if d['damped']:
                    a = a * (1 - damping * sgn(a * (s['vel'] + .5 * dt * a)))
                s['vel'] = s['vel'] + dt * a
                if not useA:
                    al = T / I
                    al = np.where([c in bl for c in 'XYZ'], 0., al)
                    if np.any(al):
                        free = True
                    if d['damped']:
                        al = al * (1 - damping * sgn(al * (s['w'] + .5 * dt * al)))
                    s['w'] = s['w'] + dt * al
                elif d['damped']:
                    asphT = T * (1 - damping * sgn(T * s['w']))
            mv = np.array(d['move'] if d['move'] and step % 2 == 0 else [0., 0, 0], float)
            rt = np.array(d['rot'] if d['rot'] and step % 2 == 0 else [0., 0, 0], float)
            s['pos'] = s['pos'] + mv + (dt * s['vel'] if moved else 0)
            if not useA:
                if moved:
                    s['q'] = qmul(qrot(s['w'] * dt), s['q'])
                    s['q'] = qmul(qrot(rt), s['q'])
            else:
                R = rot(*s['q'])
                ln = s['L'] + dt / 2 * asphT
                wb = (R.T @ ln) / I
                qh = s['q'] + dt / 2 * .5 * qmul(s['q'], np.concatenate([[0], wb]))
                s['L'] = s['L'] + dt * asphT
                wh = (R.T @ s['L']) / I
                if moved:
                    s['q'] = s['q'] + dt * .5 * qmul(qh, np.concatenate([[0], wh]))
                    s['w'] = rot(*s['q']) @ wh * 1.0 if False else unnorm(s['q'], wh)
                    s['q'] = qmul(qrot(rt), s['q'])
                else:
                    s['w'] = None
            s['q'] = s['q'] / np.linalg.norm(s['q'])
            st = O.bodies[i].state
            gotq = np.array([st.ori[3], st.ori[0], st.ori[1], st.ori[2]])
            w = 'step %d body %d: ' % (step, i)
            sc = 1e-9 * (1 + np.abs(s['vel']).max())
            check(np.allclose(np.array(st.vel), s['vel'], rtol=1e-9, atol=sc), w + 'velocity %s, expected %s', st.vel, s['vel'])
            check(np.allclose(np.array(st.pos), s['pos'], rtol=1e-9, atol=sc), w + 'position %s, expected %s', st.pos, s['pos'])
            if s['w'] is not None:
                check(np.allclose(np.array(st.angVel), s['w'], rtol=1e-7, atol=1e-8 * (1 + np.abs(s['w']).max())), w + 'angular velocity %s, expected %s', st.angVel, s['w'])
            else:
                s['w'] = np.array(st.angVel)
            if useA:
                check(np.allclose(np.array(st.angMom), s['L'], rtol=1e-9, atol=1e-9), w + 'angular momentum %s, expected %s', st.angMom, s['L'])
            check(abs(abs(gotq @ s['q']) - 1) < 1e-8, w + 'orientation (w,x,y,z) %s, expected %s', gotq, s['q'])
            check(abs(np.linalg.norm(gotq) - 1) < 1e-9, w + 'orientation is not normalised')
            s['q'] = gotq
            for k in ('vel', 'pos'):
                s[k] = np.array(getattr(st, k))
            s['w'] = np.array(st.angVel)
            if useA:
                s['L'] = np.array(st.angMom)
    labels = ['mask' if mask > 0 else 'nomask', 'damped' if damping else 'undamped']
    if any(d['asph'] for d in case['bodies']) and case['exact']:
        labels.append('aspherical')
    return {'nt': free and case['steps'] > 1, 'labels': labels}


def unnorm(q, v):
    """Rotation of v by a quaternion as Eigen applies it (no normalisation)."""
    import numpy as np
    u = q[1:]
    uv = 2 * np.cross(u, v)
    return v + q[0] * uv + np.cross(u, uv)
