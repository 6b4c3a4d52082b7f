"""Time step: the estimators and the automatic time stepper give the documented critical step for the current bodies and contacts, at any point of a run."""
from ylib import check, fail
import laws, math

RULE = 'a case is non-trivial when the time stepper computed the step from at least one contact in two or more steps, or density scaling applied to a moving body'
QUICK, THOROUGH = 900, 30000
ENV = {'OMP_NUM_THREADS': '2'}
ASSUMPTIONS = ['contact models with normal and shear stiffness; stiffness of a clump is the sum over its members, as documented']
LAWS = ['cundall', 'mindlin', 'cohfrict', 'viscel', 'frictvisco']


def strategy(tier):
    from hypothesis import strategies as st
    f = st.integers(-8, 8).map(lambda x: x / 8)
    v = st.tuples(f, f, f).map(list)
    extra = st.lists(st.fixed_dictionaries({'k': st.sampled_from(['sphere', 'box', 'facet', 'wall', 'fixed', 'clump', 'nomat']), 'at': st.tuples(*[st.integers(-3, 3)] * 3).map(list), 'dyn': st.booleans(), 'r': st.integers(1, 6).map(lambda x: x / 10)}), max_size=3, unique_by=lambda e: tuple(e['at']))
    op = st.one_of(
        st.tuples(st.just('step'), st.integers(1, 4)), st.tuples(st.just('step'), st.integers(1, 4)), st.tuples(st.just('step'), st.integers(1, 4)),
        st.tuples(st.just('dt'), st.sampled_from([1e-3, 1e-5, 2e-4])), st.tuples(st.just('auto'), st.booleans()), st.tuples(st.just('dt-'), st.just(-1)),
        st.tuples(st.just('max'), st.sampled_from([1e-4, 1e-5, 1., -1.])), st.tuples(st.just('safety'), st.sampled_from([.1, .5, .8, 1.])), st.tuples(st.just('interval'), st.integers(1, 4)),
        st.tuples(st.just('scaling'), st.booleans()), st.tuples(st.just('target'), st.sampled_from([1e-3, 1., 1e-5])), st.tuples(st.just('erase'), st.integers(0, 7)), st.tuples(st.just('add'), st.integers(0, 7)),
        st.tuples(st.just('mass'), st.integers(0, 7)), st.tuples(st.just('fix'), st.integers(0, 7)), st.tuples(st.just('newE'), st.sampled_from([1e5, 4e6]))).map(list)
    return st.fixed_dictionaries({'law': st.sampled_from(LAWS), 'p': laws.params(), 'bodies': laws.packing(2, 5, .1).map(lambda l: [dict(b, r=b['r'] * 1.1) for b in l]), 'extra': extra, 'clump': st.booleans(), 'visc': st.booleans(), 'cfg': st.fixed_dictionaries(
        {'default': st.sampled_from([-1., -1., 1e-4, 1e-7]), 'safety': st.sampled_from([.8, .8, .3]), 'interval': st.integers(1, 3)}), 'ops': st.lists(op, min_size=1, max_size=8).map(lambda l: [['step', 2]] + l), 'g': v})


def run(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3
    O = w.Omega()
    law = case['law']
    cfg = case['cfg']
    gs = w.GlobalStiffnessTimeStepper(defaultDt=cfg['default'], timestepSafetyCoefficient=cfg['safety'], timeStepUpdateInterval=cfg['interval'])
    visc = law == 'viscel' and case['visc']
    gs.viscEl = visc
    ids = laws.build(law, case['p'], case['bodies'], 1e-4, gravity=case['g'], extra=[gs], trackE=False)
    il = O.engines[2]
    if law in ('cundall', 'mindlin', 'viscel', 'frictvisco') and any(e['k'] == 'facet' for e in case['extra']):
        O.engines = [O.engines[0], w.InsertionSortCollider([w.Bo1_Sphere_Aabb(), w.Bo1_Facet_Aabb()]), w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(), w.Ig2_Facet_Sphere_ScGeom()], il.physDispatcher.functors, il.lawDispatcher.functors), gs, O.engines[-1]]
    newton = O.engines[-1]
    if case['clump'] and len(ids) > 2:
        O.bodies.clump([ids[0], ids[1]])
    for e in case['extra']:
        at = Vector3(*[3 * x + 1.5 for x in e['at']])
        if e['k'] == 'sphere':
            b = utils.sphere(at, e['r'], material=O.materials[0])
        elif e['k'] == 'fixed':
            b = utils.sphere(at, e['r'], material=O.materials[0], fixed=True)
        elif e['k'] == 'box':
            b = utils.box(at, Vector3(.2, .3, .1), material=O.materials[0])
        elif e['k'] == 'facet':
            b = utils.facet([Vector3(-1, -1, -.45), Vector3(1, -1, -.45), Vector3(0, 2, -.45)], material=O.materials[0])
        elif e['k'] == 'wall':
            b = utils.wall(9, 2, material=O.materials[0])
        elif e['k'] == 'nomat':
            b = w.Body()
            b.state.mass = 1
            b.state.inertia = Vector3(1, 1, 1)
            b.state.pos = at
        else:
            O.bodies.appendClumped([utils.sphere(at, .2, material=O.materials[0]), utils.sphere(at + Vector3(.3, 0, 0), .2, material=O.materials[0])])
            continue
        if e['k'] in ('box', 'facet') and e['dyn']:
            b.state.mass, b.state.inertia, b.dynamic = 2., Vector3(.1, .1, .1), True
        O.bodies.append(b)

    def waves():
        P, R = math.inf, math.inf
        for b in O.bodies:
            if b.material is None or not isinstance(b.shape, w.Sphere) or not isinstance(b.material, w.ElastMat):
                continue
            r, E, nu = b.shape.radius, b.material.young, b.material.poisson
            rho = b.state.mass / (4 / 3 * math.pi * r ** 3)
            P = min(P, r / math.sqrt(E / rho))
            R = min(R, math.pi * r / (.1631 * nu + .876605) * math.sqrt(rho * 2 * (1 + nu) / E))
        return (P if P < math.inf else 1.), R

    def close(a, b, tol=1e-9):
        return a == b or abs(a - b) <= tol * abs(b)
    K = {'once': False, 'prev': None, 'default': cfg['default'], 'ds': {}}
    full = 0

    def model(step):
        """what the time stepper must have done in the step just made"""
        nonlocal full
        k, kr, c, cr = {}, {}, {}, {}
        z = lambda d, i: d.setdefault(i, np.zeros(3))
        for i in O.interactions:
            if np.array(i.phys.normalForce).any() == False:
                continue
            n = np.array(i.geom.normal)
            nn = n * n
            kn, ks = i.phys.kn, i.phys.ks
            D = (kn - ks) * nn + ks
            Dr = ks * (1 - nn)
            M = np.zeros(3)
            if isinstance(i.phys, w.CohFrictPhys):
                M = (i.phys.ktw - i.phys.kr) * nn + i.phys.kr
            for b, r in ((i.id1, i.geom.refR1), (i.id2, i.geom.refR2)):
                k[b] = z(k, b) + D
                kr[b] = z(kr, b) + Dr * r * r + M
                if visc:
                    c[b] = z(c, b) + (i.phys.cn - i.phys.cs) * nn + i.phys.cs
                    cr[b] = z(cr, b) + i.phys.cs * (1 - nn) * r * r
        new, something = math.inf, False
        scal = {}
        for b in O.bodies:
            if not b.dynamic or b.isClumpMember:
                continue
            i = b.id
            if b.isClump:
                for m in b.shape.members:
                    for d in (k, kr, c, cr):
                        d[i] = z(d, i) + z(d, m)
            best = math.inf
            ki, kri = z(k, i), z(kr, i)
            mass, I = b.state.mass, np.array(b.state.inertia)
            if ki.any():
                something = True
                q = mass / ki.max()
                q = min([q] + [I[a] / kri[a] for a in range(3) if kri[a] != 0])
                best = math.sqrt(2) * gs.timestepSafetyCoefficient * math.sqrt(q)
            if visc and (z(c, i).any() or z(cr, i).any()):
                something = True
                q = [mass / z(c, i).max()] if z(c, i).max() else []
                q += [I[a] / cr[i][a] for a in range(3) if cr[i][a] != 0]
                best = min(best, 2 * gs.timestepSafetyCoefficient * min(q))
            scal[i] = (best, ki.any())
            new = min(new, best)
        return new, something, scal
    scaling = False
    for op, a in case['ops']:
        live = [b.id for b in O.bodies]
        if op == 'dt':
            O.dt = a
            check(O.dt == a, 'O.dt is %s after setting it to %s', O.dt, a)
        elif op == 'dt-':
            d0 = O.dt
            O.dt = -1
            check(O.dynDt and O.dt == d0, 'a negative O.dt must activate the time stepper and nothing else')
        elif op == 'auto':
            O.dynDt = a
            check(O.dynDt == a and gs.active == a and O.dynDtAvailable, 'O.dynDt=%s left active=%s', a, gs.active)
        elif op == 'max':
            gs.maxDt = a
        elif op == 'safety':
            gs.timestepSafetyCoefficient = a
        elif op == 'interval':
            gs.timeStepUpdateInterval = a
        elif op == 'scaling':
            if law == 'viscel' and visc:
                continue
            newton.densityScaling = a
            scaling = a
            check(gs.densityScaling == a, 'NewtonIntegrator.densityScaling=%s did not set that of the time stepper', a)
        elif op == 'target':
            gs.targetDt = a
        elif op == 'erase' and live:
            i = live[a % len(live)]
            if not O.bodies[i].isClump and not O.bodies[i].isClumpMember and len(live) > 2:
                O.bodies.erase(i)
        elif op == 'add':
            O.bodies.append(utils.sphere(Vector3(20 + a, 3 * a, 3 * O.bodies.__len__()), .5, material=O.materials[a % 3]))
        elif op == 'mass' and live:
            O.bodies[live[a % len(live)]].state.mass *= 1.5
        elif op == 'fix' and live:
            b = O.bodies[live[a % len(live)]]
            if not b.isClumpMember and b.state.mass > 0:
                b.dynamic = not b.dynamic
        elif op == 'newE':
            if hasattr(O.materials[0], 'young'):
                O.materials[0].young = a
        P, R = waves()
        check(close(utils.PWaveTimeStep(), P), 'PWaveTimeStep gives %s, the spheres %s', utils.PWaveTimeStep(), P)
        check(close(utils.RayleighWaveTimeStep(), R), 'RayleighWaveTimeStep gives %s, the spheres %s', utils.RayleighWaveTimeStep(), R)
        for _ in range(a if op == 'step' else 0):
            it, t0, d0 = O.iter, O.time, O.dt
            acts = gs.active and (not K['once'] or it % gs.timeStepUpdateInterval == 0 or it < 2)
            ds0 = {b.id: b.state.densityScaling for b in O.bodies}
            v0 = {b.id: np.array(b.state.vel) for b in O.bodies}
            P = waves()[0]
            O.step()
            w0 = 'step %d: ' % it
            new, some, scal = model(it)
            expect, tol = d0, 0.
            if acts:
                if K['default'] < 0:
                    K['default'] = gs.timestepSafetyCoefficient * P
                    check(close(gs.defaultDt, K['default']), w0 + 'default step %s, P-wave estimate times safety %s', gs.defaultDt, K['default'])
                if scaling:
                    new = gs.targetDt
                if some or scaling:
                    full += 1
                    expect = new if gs.maxDt <= 0 else min(new, gs.maxDt)
                    if K['prev'] is not None:
                        expect = min(expect, 1.05 * K['prev'])
                    tol = 4e-3      # the documented square root of two is rounded in the code
                    K['once'] = True
                elif not K['once']:
                    expect = K['default']
                if some or scaling:
                    K['prev'] = O.dt
            check(close(O.dt, expect, tol + 1e-12) or (not some and gs.maxDt > 0 and close(O.dt, gs.maxDt)), w0 + 'time step %s, expected %s (contacts give %s, previous %s, limit %s)', O.dt, expect, new, d0, gs.maxDt)
            check(close(O.time, t0 + O.dt, 1e-12), w0 + 'time went from %s to %s with a step of %s', t0, O.time, O.dt)
            for b in O.bodies:
                if b.id in scal and not b.isClumpMember:
                    s0, s1 = ds0[b.id], b.state.densityScaling
                    best, contact = scal[b.id]
                    if scaling and acts:
                        if contact:
                            q = (best / gs.targetDt) ** 2
                            q = min(q, 1.05 * s0) if s0 > 0 else q
                            check(close(s1, q, 1e-2), w0 + 'scaling of body %d is %s, its critical step asks for %s', b.id, s1, q)
                        else:
                            q = K['default']
                            if b.material is not None and isinstance(b.shape, w.Sphere) and isinstance(b.material, w.ElastMat):
                                q = b.shape.radius / math.sqrt(b.material.young / (b.state.mass / (4 / 3 * math.pi * b.shape.radius ** 3)))
                            q = gs.timestepSafetyCoefficient * (q / gs.targetDt) ** 2
                            q = min(q, 1.01 * s0) if s0 > 0 else q
                            check(close(s1, q), w0 + 'scaling of body %d without contacts is %s, its P-wave estimate asks for %s', b.id, s1, q)
                    elif not scaling:
                        check(s1 == s0, w0 + 'scaling of body %d changed without density scaling', b.id)
                    if b.state.blockedDOFs == '' and not b.isClump:
                        acc = np.array(O.forces.f(b.id)) / b.state.mass + np.array(case['g'])
                        if scaling:
                            acc = acc * s1
                        dv = np.array(b.state.vel) - v0[b.id]
                        check(np.allclose(dv, acc * O.dt, rtol=1e-7, atol=1e-12 * (1 + abs(v0[b.id]).max()) + 1e-9 * abs(acc * O.dt).max()), w0 + 'body %d accelerated by %s, expected %s (scaling %s)', b.id, dv / O.dt, acc, s1 if scaling else None)
            if not all(np.isfinite(np.array(b.state.pos)).all() and np.linalg.norm(np.array(b.state.pos)) < 1e4 for b in O.bodies):
                return {'nt': full > 1, 'labels': [law, 'flew away']}
    return {'nt': full > 1, 'labels': [law, 'scaling' if scaling else 'no scaling', 'viscous' if visc else 'elastic']}
