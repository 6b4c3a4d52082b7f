"""Energy accounting: tracked energies are those of the bodies and contacts, and the total is conserved."""
from ylib import check, fail, Reject
import laws, math

RULE = 'a case is non-trivial when bodies moved with nonzero kinetic energy and either a contact stored energy or at least three bodies were tracked'
QUICK, THOROUGH = 1300, 40000
ASSUMPTIONS = ['the balance of energy is checked within 3 % of the energy exchanged, at time steps of at most 1/100 of the shortest natural period']
ENV = {'OMP_NUM_THREADS': '4'}


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-20, 20).map(lambda x: x / 10)
    v3 = st.tuples(c, c, c).map(list)
    body = st.fixed_dictionaries({'kind': st.sampled_from('sssbc'), 'r': st.integers(3, 12), 'e': st.tuples(*[st.integers(2, 12)] * 3).map(list), 'v': v3, 'w': v3, 'q': st.tuples(c, c, c, c).map(list),
                                  'F': v3, 'T': v3, 'block': st.sampled_from(['', '', '', 'x', 'yZ', 'xyzXYZ', 'XYZ']), 'damped': st.booleans(), 'noasph': st.booleans(), 'mask': st.integers(1, 3)})
    track = st.fixed_dictionaries({'mode': st.just('track'), 'bodies': st.lists(body, min_size=1, max_size=6), 'steps': st.integers(1, 6), 'split': st.booleans(), 'damping': st.sampled_from([0., .2, .7]),
                                   'g': st.one_of(st.just([0., 0., 0.]), v3), 'dt': st.sampled_from([1e-3, 1e-2]), 'threads': st.integers(1, 4), 'late': st.integers(0, 2), 'clear': st.integers(1, 9), 'erase': st.booleans(), 'geng': st.booleans(), 'gmask': st.integers(0, 3)})
    bal = st.fixed_dictionaries({'mode': st.just('balance'), 'law': st.sampled_from(['cundall', 'l3', 'mindlin', 'cohfrict']), 'p': laws.params(), 'bodies': laws.packing(2, 4, speed=.2),
                                 'damping': st.sampled_from([0., 0., .3]), 'g': st.sampled_from([[0, 0, 0], [0, 0, -10], [3, -4, 5]]), 'steps': st.integers(20, 120), 'threads': st.just(1)})
    return st.one_of(track, track, bal, bal)


def threads(n):
    import ctypes
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)


def run(case):
    threads(case['threads'])
    return (track if case['mode'] == 'track' else balance)(case)


def track(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3, Quaternion
    from geom import qmat
    O = w.Omega()
    O.reset()
    O.dt = case['dt']
    mat = O.materials.append(w.FrictMat(density=1000))
    top = []
    for k, b in enumerate(case['bodies']):
        p = Vector3(6 * k, 0, 0)
        q = Quaternion(*b['q'])
        if q.norm() < .1:
            q = Quaternion(1, 0, 0, 0)
        q.normalize()
        if b['kind'] == 's':
            i = O.bodies.append(utils.sphere(p, b['r'] / 10, material=mat))
        elif b['kind'] == 'b':
            i = O.bodies.append(utils.box(p, Vector3(*[x / 10 for x in b['e']]), material=mat))
            O.bodies[i].state.ori = q
            O.bodies[i].aspherical = not b['noasph']
        else:
            i, _ = O.bodies.appendClumped([utils.sphere(p + Vector3(*[d * x / 10 for x, d in zip(b['e'], o)]), .3, material=mat) for o in ((1, 0, 0), (-1, .5, 0), (0, 0, -1.))], 0)
        B = O.bodies[i]
        B.mask = b['mask']
        s = B.state
        s.blockedDOFs = b['block']
        if b['kind'] != 'c':
            s.vel, s.angVel = Vector3(*b['v']), Vector3(*b['w'])
            if B.aspherical:
                R = np.array(qmat(s.ori))
                s.angMom = Vector3(*(R @ (np.array(s.inertia) * (R.T @ np.array(s.angVel)))))
        else:
            s.vel = Vector3(*b['v'])
        s.isDamped = b['damped']
        top.append(i)
    if case['erase'] and len(top) > 1:
        O.bodies.erase(top.pop(0), True) if O.bodies[top[0]].isClump else O.bodies.erase(top.pop(0))
    rest = dict(zip(top, case['bodies'][-len(top):]))
    newton = w.NewtonIntegrator(damping=case['damping'], gravity=Vector3(*case['g']) if not case['geng'] else Vector3(0, 0, 0), kinSplit=case['split'])
    O.engines = [w.ForceResetter()] + ([w.GravityEngine(gravity=Vector3(*case['g']), mask=case['gmask'], warnOnce=False)] if case['geng'] else []) + [newton]
    for i, b in rest.items():
        O.forces.setPermF(i, Vector3(*b['F']) * 50)
        O.forces.setPermT(i, Vector3(*b['T']) * 5)
    grav = damp = 0.
    dt = case['dt']
    g = np.array(case['g'])
    for s in range(case['steps']):
        if s == case['late']:
            O.trackEnergy = True
        on = s >= case['late']
        if s == case['clear']:
            O.energy.clear()
            check(O.energy.total() == 0, 'cleared energies sum to %r', O.energy.total())
            grav = damp = 0.
        Et = Er = 0.
        pre = {i: (np.array(O.bodies[i].state.vel), np.array(O.bodies[i].state.angVel), np.array(qmat(O.bodies[i].state.ori))) for i in top}
        arms = {b.id: np.array(b.state.pos) - np.array(O.bodies[b.clumpId].state.pos) for b in O.bodies if b.isClumpMember}
        members = [(b.state.mass, np.array(b.state.vel)) for b in O.bodies if not b.isClump and (case['gmask'] == 0 or b.mask & case['gmask'])]
        O.step()
        if not on:
            continue
        for i in top:
            st = O.bodies[i].state
            v, om, R = pre[i]
            Et += .5 * st.mass * v @ v
            I = np.array(st.inertia)
            Er += .5 * om @ (R @ (I * (R.T @ om))) if O.bodies[i].aspherical else .5 * om @ (I * om)
            if not case['geng']:
                grav -= g @ v * st.mass * dt
            if st.isDamped:
                free = lambda names: np.array([c not in rest[i]['block'] for c in names])
                F, T = np.array(O.forces.f(i)) + (0 if case['geng'] else st.mass * g), np.array(O.forces.t(i))
                for m in (O.bodies[i].shape.members if O.bodies[i].isClump else ()):
                    F = F + np.array(O.forces.f(m))
                    T = T + np.array(O.forces.t(m)) + np.cross(arms[m], np.array(O.forces.f(m)))
                damp += case['damping'] * dt * (np.abs(v) @ (np.abs(F) * free('xyz')) + np.abs(om) @ (np.abs(T) * free('XYZ')))
        if case['geng']:
            grav -= sum(m * g @ v * dt for m, v in members)
        E = dict(O.energy.items())
        tol = 1e-9 * (Et + Er + abs(grav) + damp + 1e-6)
        if case['split']:
            check(abs(E['kinTrans'] - Et) <= tol, 'step %d: tracked translational energy %r, bodies have %r', s, E['kinTrans'], Et)
            check(abs(E['kinRot'] - Er) <= tol, 'step %d: tracked rotational energy %r, bodies have %r', s, E['kinRot'], Er)
        else:
            check(abs(E['kinetic'] - Et - Er) <= tol, 'step %d: tracked kinetic energy %r, bodies have %r', s, E['kinetic'], Et + Er)
        check(abs(E.get('gravWork', 0.) - grav) <= tol, 'step %d: work of gravity %r, expected %r', s, E.get('gravWork', 0.), grav)
        check(abs(E.get('nonviscDamp', 0.) - damp) <= tol, 'step %d: damped energy %r, expected %r', s, E.get('nonviscDamp', 0.), damp)
        check(abs(O.energy.total() - sum(E.values())) <= tol, 'step %d: total() is %r, items sum to %r', s, O.energy.total(), sum(E.values()))
        # utils.kineticEnergy looks at dynamic bodies now
        now, best = 0., (0., -1)
        for i in top:
            if not O.bodies[i].dynamic:
                continue
            st = O.bodies[i].state
            v, om, R, I = np.array(st.vel), np.array(st.angVel), np.array(qmat(st.ori)), np.array(st.inertia)
            e = .5 * st.mass * v @ v + (.5 * om @ (R @ (I * (R.T @ om))) if O.bodies[i].aspherical else .5 * om @ (I * om))
            now += e
            best = max(best, (e, i))
        check(abs(utils.kineticEnergy() - now) <= 1e-9 * (now + 1e-9), 'step %d: kineticEnergy() %r, bodies have %r', s, utils.kineticEnergy(), now)
        e, i = utils.kineticEnergy(findMaxId=True)
        check(abs(e - now) <= 1e-9 * (now + 1e-9), 'kineticEnergy(findMaxId=True) %r', e)
    return {'nt': len(top) >= 3 and case['steps'] > case['late'], 'labels': ['track']}


def balance(case):
    import numpy as np
    from yade import wrapper as w, utils
    law = case['law']
    p = dict(case['p'])
    if law == 'mindlin':
        p.update(opt=p['opt'] % 2)
    elif law == 'cohfrict':
        p.update(opt=1, never=False)  # plasticity of moments is documented as wrong in the total form
    dt = 1e-4
    ids = laws.build(law, p, case['bodies'], dt, gravity=case['g'], damping=case['damping'], trackE=True)
    O = w.Omega()
    f = O.engines[2].lawDispatcher.functors[0]
    if law == 'mindlin':
        f.calcEnergy = True
        for m in O.materials:
            m.frictionAngle = 0
    E0 = None
    stored = 0.
    n = len(case['bodies'])
    lastd = -1e-30
    pots = []
    for s in range(case['steps']):
        O.step()
        E = dict(O.energy.items())
        kin, grav, damp = E['kinetic'], E.get('gravWork', 0.), E.get('nonviscDamp', 0.)
        el = E.get('elastPotential', 0.)
        pd = E.get('plastDissip', 0.)
        if law == 'cundall':
            held = sum(.5 * (i.phys.normalForce.squaredNorm() / i.phys.kn + i.phys.shearForce.squaredNorm() / i.phys.ks) for i in O.interactions)
            check(abs(el - held) <= 1e-9 * (held + 1e-9), '%s step %d: tracked elastic energy %r, contacts hold %r', law, s, el, held)
            check(abs(el - f.elasticEnergy()) <= 1e-9 * (el + 1e-9), 'elasticEnergy() %r differs from the tracked value %r', f.elasticEnergy(), el)
        elif law == 'mindlin':
            held = sum(.4 * i.phys.kno * max(i.geom.penetrationDepth, 0) ** 2.5 for i in O.interactions)
            el = f.normElastEnergy()
            check(abs(el - held) <= 1e-9 * (held + 1e-9), '%s step %d: normElastEnergy() is %r, contacts hold %r', law, s, el, held)
            pd = f.normDampDissip
        elif law == 'cohfrict':
            parts = [0.] * 4
            for i in O.interactions:
                ph = i.phys
                for k, (F, K) in enumerate(((ph.normalForce, ph.kn), (ph.shearForce, ph.ks), (ph.moment_bending, ph.kr), (ph.moment_twist, ph.ktw))):
                    parts[k] += .5 * F.squaredNorm() / K
            for k, name in enumerate(('normElastEnergy', 'shearElastEnergy', 'bendingElastEnergy', 'twistElastEnergy')):
                got = getattr(f, name)()
                check(abs(got - parts[k]) <= 1e-9 * (parts[k] + 1e-9), '%s step %d: %s() is %r, contacts hold %r', law, s, name, got, parts[k])
            el = f.elasticEnergy()
            check(abs(el - sum(parts)) <= 1e-9 * (el + 1e-9), '%s step %d: elasticEnergy() is %r, parts are %r', law, s, el, parts)
            pd = sum(E.get(n, 0.) for n in ('shearDissip', 'bendingDissip', 'twistDissip'))
            check(abs(f.plasticDissipation() - E.get('shearDissip', 0.)) <= 1e-9 * (pd + 1e-9), 'plasticDissipation() %r, tracked %r', f.plasticDissipation(), E.get('shearDissip', 0.))
        check(pd >= lastd, '%s step %d: dissipation by friction went down from %r to %r', law, s, lastd, pd)
        lastd = pd
        tot = kin + el + pd + damp + grav
        if E0 is None:
            E0, k0 = tot, kin
            amp = power = 0.
        amp = max(amp, kin, el, abs(grav), pd, damp)
        stored = max(stored, el)
        # energies are half a step apart: first order in dt*power
        gn = np.linalg.norm(case['g'])
        power = max(power, sum(F * (b.state.vel.norm() + F / b.state.mass * dt) for b in O.bodies for F in [O.forces.f(b.id).norm() + b.state.mass * gn]))
        check(abs(tot - E0) <= .03 * amp + 2 * dt * power + 1e-6, '%s step %d: total energy changed from %r to %r (kinetic %g elastic %g friction %g damping %g gravity %g)', law, s, E0, tot, kin, el, pd, damp, grav)
    return {'nt': stored > 1e-6, 'labels': ['balance:' + case['law']]}
