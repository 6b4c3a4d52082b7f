"""Stress and strain controllers of boxes and periodic cells: per-step reference model of the documented control, measured stresses and strains, work, goals."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when at least one wall or cell axis was stress-controlled with contacts present, boundary forces were measured, or a prescribed strain path was followed to its end'
QUICK, THOROUGH = 1000, 12000
ENV = {'OMP_NUM_THREADS': '1'}
ASSUMPTIONS = ['controllers run between the interaction loop and the integrator, as documented', 'frictional linear contacts']
WALLS = ['left', 'right', 'bottom', 'top', 'back', 'front']


def strategy(tier):
    from hypothesis import strategies as st
    g = st.sampled_from([-5e3, -1e4, -200., 0., 1e3, -3e4])
    e = st.sampled_from([-1., -.2, 0., .5, 3.])
    seg = st.fixed_dictionaries({'n': st.integers(1, 9), 'goal': st.one_of(st.none(), st.tuples(g, g, g).map(list)), 'rate': st.tuples(e, e, e).map(list), 'mask': st.integers(0, 7), 'act': st.lists(st.sampled_from([True, True, True, False]), min_size=6, max_size=6), 'internal': st.sampled_from([False, False, False, True]),
                                 'poro': st.booleans(), 'er': st.integers(-1, 9), 'dt': st.sampled_from([1e-4, 1e-4, 5e-5])})
    common = dict(seed=st.integers(0, 10**6), n=st.integers(1, 14), segs=st.lists(seg, min_size=1, max_size=4), damp=st.sampled_from([.25, 0., .9, 1.]), every=st.tuples(st.sampled_from([1, 2, 3, 10]), st.sampled_from([1, 2, 3, 10]), st.sampled_from([1, 2, 4])).map(list))
    box = st.fixed_dictionaries(dict(common, kind=st.just('box'), thick=st.sampled_from([0., .1, .02]), auto=st.booleans(), sdamp=st.sampled_from([.99, .5, 0.]), vmax=st.sampled_from([1., .01, 1e3]), mult=st.sampled_from([1.001, 1.05]), clump=st.booleans(), it0=st.sampled_from([0, 0, 90, 100, 250]), ref=st.booleans(), offs=st.integers(0, 3)))
    peri = st.fixed_dictionaries(dict(common, kind=st.just('peri'), dyn=st.booleans(), mass=st.sampled_from([None, 1., 50.]), vmax=st.sampled_from([1., .05, 100.]), skew=st.integers(-3, 3), en=st.booleans(), tol=st.sampled_from([3e-5, .5, 50.]), unb=st.sampled_from([1e-4, 10.]), atol=st.sampled_from([1e3, 1e6])))
    path = st.lists(st.tuples(st.integers(1, 5), st.integers(-4, 4)).map(list), min_size=1, max_size=3)
    p3d = st.fixed_dictionaries({'kind': st.just('p3d'), 'paths': st.lists(path, min_size=6, max_size=6), 'goal': st.lists(st.integers(-9, 9).map(lambda x: x / 100), min_size=6, max_size=6), 'n': st.sampled_from([60, 120]), 'dt': st.sampled_from([1e-3, 1e-5]), 'hook': st.booleans()})
    rate = st.sampled_from([.5, -.5, 2., -2., .01, 30., -30.])
    uni = st.fixed_dictionaries(dict(kind=st.just('uni'), seed=st.integers(0, 10**6), n=st.integers(0, 5), neg=st.integers(1, 3), pos=st.integers(1, 3), axis=st.integers(0, 2), asym=st.sampled_from([0, 0, 1, -1]), rate=rate, speed=st.booleans(), acc=st.sampled_from([-200, -5, -1, 0, 1e-3, 3e-4, .1]), t0=st.sampled_from([0, 0, 3, 20]),
                                     stop=st.sampled_from([None, None, .001, -.001, .01, -.01, .0002, -.0002]), limit=st.sampled_from([0, 0, .002, -.002, 1e-4, -1e-4]), bd=st.booleans(), br=st.booleans(), set=st.booleans(), every=st.sampled_from([1, 2, 3, 10]), area=st.sampled_from([1., .04]), er=st.booleans(),
                                     segs=st.lists(st.tuples(st.integers(1, 12), st.one_of(st.none(), rate), st.booleans()).map(list), min_size=1, max_size=4)))
    return st.one_of(box, box, peri, peri, p3d, uni)


def run(case):
    return {'box': box, 'peri': peri, 'p3d': p3d, 'uni': uni}[case['kind']](case)


def close(a, b, s=0.):
    import numpy as np
    a, b = np.array(a, float), np.array(b, float)
    return bool(np.all(np.abs(a - b) <= 1e-7 * (np.abs(a) + np.abs(b)) + 1e-9 * s + 1e-14))


def box(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3
    rng = np.random.default_rng(case['seed'])
    O = w.Omega()
    O.reset()
    O.materials.append(w.FrictMat(young=1e6, poisson=.3, frictionAngle=.4, density=1000))
    dims = rng.uniform(.6, 1., 3)
    extra = case['offs']
    # the boundaries need not be the first bodies
    for k in range(extra):
        O.bodies.append(utils.sphere((5 + k, 5, 5), .1))
    W = [extra + k for k in range(6)]
    O.bodies.append(utils.aabbWalls([Vector3(0, 0, 0), Vector3(*dims)], thickness=case['thick']))
    sp = []
    for k in range(case['n']):
        r = rng.uniform(.08, .2)
        x = r * .97 + rng.random(3) * (dims - 2 * r * .97)
        for a in range(3):
            c = rng.integers(0, 4)
            if c == 0:
                x[a] = r * .98
            elif c == 1:
                x[a] = dims[a] - r * .98
        if case['clump'] and k == 0:
            O.bodies.appendClumped([utils.sphere(Vector3(*x), r), utils.sphere(Vector3(*(x + [0, .5 * r, 0])), r)])
        else:
            sp.append(O.bodies.append(utils.sphere(Vector3(*x), r, fixed=k == 1)))
    t = w.TriaxialStressController(internalCompaction=False, stressDamping=case['damp'], strainDamping=case['sdamp'], max_vel=case['vmax'], stiffnessUpdateInterval=case['every'][0], computeStressStrainInterval=case['every'][1], radiusControlInterval=case['every'][2], thickness=-1. if case['auto'] else case['thick'],
                                   maxMultiplier=case['mult'], finalMaxMultiplier=1 + (case['mult'] - 1) / 10, **{'wall_%s_id' % s: i for s, i in zip(WALLS, W)})
    if case['ref']:
        t.width0, t.height0, t.depth0 = 1.1, .9, 1.2
    O.engines = [w.ForceResetter()]
    for _ in range(case['it0']):
        O.step()
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(), w.Bo1_Box_Aabb()], verletDist=.05), w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(), w.Ig2_Box_Sphere_ScGeom()], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack()]), t, w.NewtonIntegrator(damping=.2)]
    O.dt = 1e-4
    nrm = np.zeros((6, 3))
    for i in range(6):
        nrm[i][i // 2] = 1. if i % 2 == 0 else -1.
    prev = np.zeros((6, 3))
    K = np.zeros(6)
    S = np.zeros((6, 3))
    work = wsc = 0.
    first = True
    vol = mean = 0.
    L0 = [t.width0, t.height0, t.depth0]
    maxmul, strain, pmul = case['mult'], np.zeros(3), 1.
    nt, labels = False, set()
    for seg in case['segs']:
        O.dt = seg['dt']
        mask = seg['mask']
        goal = [(seg['goal'] or [-1e4] * 3)[a] if mask >> a & 1 else seg['rate'][a] for a in range(3)]
        internal = seg['internal'] and mask > 0 and all(goal[a] != 0 for a in range(3) if mask >> a & 1)
        if internal and sum(goal[a] for a in range(3) if mask >> a & 1) == 0:
            internal = False
        t.goal1, t.goal2, t.goal3 = goal
        t.stressMask = mask
        t.internalCompaction = internal
        for s, a in zip(WALLS, seg['act']):
            setattr(t, 'wall_%s_activated' % s, a)
        if seg['poro']:
            t.updatePorosity = True
        poro = seg['poro']
        if 0 <= seg['er'] < len(sp) and O.bodies[sp[seg['er']]] is not None and seg['er'] > 1:
            O.bodies.erase(sp[seg['er']])
            labels.add('erased')
        for _ in range(seg['n']):
            it, dt = O.iter, O.dt
            pos = np.array([O.bodies[i].state.pos for i in W], float)
            vel = np.array([O.bodies[i].state.vel for i in W], float)
            rad = {b.id: b.shape.radius for b in O.bodies if isinstance(b.shape, w.Sphere)}
            O.step()
            F = np.array([O.forces.f(i) for i in W], float)
            fs = np.abs(F).max() + 1e-9
            size = np.array([pos[2 * a + 1][a] - pos[2 * a][a] - case['thick'] for a in range(3)])
            if size.min() < .3:
                raise Reject
            area = size.prod() / size
            if first or poro:
                vol = sum(b.state.mass / 1000 for b in O.bodies if b.isClump) + sum(4 / 3 * math.pi * rad[b.id] ** 3 for b in O.bodies if b.id in rad and b.dynamic and not b.isClumpMember)
                if internal and it % case['every'][2] == 0 and any(b.isClump for b in O.bodies):
                    raise Reject   # masses are already those of the grown clump
                first = poro = False
            poros = 1 - vol / size.prod()   # of the beginning of the step
            growing = internal and it % case['every'][2] == 0
            if it % case['every'][1] == 0 or growing:
                L0 = [l or s for l, s in zip(L0, size)]
                strain = np.log(size / L0)
                for i in range(6):
                    S[i] = (F[i] if i % 2 == 0 else -F[i]) / area[i // 2]
                mean = sum(S[i][i // 2] for i in range(6)) / 6
                labels.add('measured')
            mul = 1.
            if growing:
                iso = sum(goal[a] for a in range(3) if mask >> a & 1) / bin(mask).count('1')
                if abs(abs(iso) - abs(mean)) < 1e-6 * abs(iso):
                    raise Reject
                if abs(iso) <= abs(mean):
                    maxmul = 1 + (case['mult'] - 1) / 10
                mul = maxmul if mean == 0 else 1 + ((iso - mean) if iso < 0 else (mean - iso)) / iso * (maxmul - 1)
                check(close(t.previousMultiplier, mul), 'internal compaction: radii multiplied by %.9g, expected %.9g (mean stress %g, goal %g)', t.previousMultiplier, mul, mean, iso)
                if not .8 < mul < 1.2:
                    raise Reject
                vol *= mul ** 3
                for b in O.bodies:
                    if b.id in rad and not b.isClumpMember:
                        check(close(b.shape.radius, rad[b.id] * (mul if b.dynamic else 1)), 'internal compaction: radius of body %d is %g, expected %g', b.id, b.shape.radius, rad[b.id] * mul)
                labels.add('internal')
            if it % case['every'][0] == 0 or it < 100:
                K[:] = 0
                for I in O.interactions:
                    if I.isReal and I.phys.normalForce.norm() != 0:
                        for k in range(6):
                            if W[k] in (I.id1, I.id2):
                                K[k] += I.phys.kn / mul
            for q, x in zip(('width', 'height', 'depth', 'boxVolume', 'particlesVolume', 'porosity', 'meanStress', 'volumetricStrain'), (*size, size.prod(), vol, poros, mean, sum(strain))):
                check(abs(getattr(t, q) - x) <= 1e-6 * (abs(x) + (1 if q in ('porosity', 'volumetricStrain') else 0)) + (1e-6 * fs if q == 'meanStress' else 1e-12), 'step %d: %s is %.9g, expected %.9g', it, q, getattr(t, q), x)
            check(close(t.strain, strain, 1), 'step %d: strain is %s, expected %s', it, t.strain, strain)
            for i in range(6):
                check(close(t.stress(i), S[i], fs), 'step %d: stress on boundary %d is %s, expected %s', it, i, t.stress(i), S[i])
            for i in range(6):
                a = i // 2
                v = vel[i].copy()
                if internal or not seg['act'][i]:
                    v[:] = 0
                elif mask >> a & 1:
                    vm = 3 * size[a] / size.sum() * case['vmax']
                    tr = nrm[i] @ (F[i] - goal[a] * area[a] * nrm[i])
                    if tr != 0:
                        tr = math.copysign(min(abs(tr) / K[i], vm * dt) if K[i] else vm * dt, tr)
                    prev[i] = (1 - case['damp']) * tr * nrm[i] + .8 * prev[i]
                    v = prev[i] / dt
                    work += prev[i] @ F[i]
                    if K[i]:
                        nt = True
                        labels.add('stress')
                    wsc += abs(prev[i] @ F[i])
                else:
                    v[a] += (-nrm[i][a] * .5 * goal[a] * size[a] - v[a]) * (1 - case['sdamp'])
                    work += v @ F[i] * dt
                    wsc += abs(v @ F[i] * dt)
                    labels.add('strain')
                st = O.bodies[W[i]].state
                check(close(st.vel, v, case['vmax'] if case['vmax'] < 10 else 10), 'step %d: boundary %s moves with %s, expected %s', it, WALLS[i], st.vel, v)
                check(close(st.pos, pos[i] + v * dt, 1), 'step %d: boundary %s is at %s, expected %s', it, WALLS[i], st.pos, pos[i] + v * dt)
            check(abs(t.externalWork - work) <= 1e-6 * wsc + 1e-12, 'step %d: external work %g, expected %g', it, t.externalWork, work)
            now = np.array([O.bodies[i].state.vel for i in W], float)
            sr = [(now[2 * a + 1][a] - now[2 * a][a]) / size[a] for a in range(3)]
            check(close(t.strainRate, sr, 1), 'step %d: strain rate is %s, expected %s', it, t.strainRate, sr)
            if not all(np.all(np.isfinite(np.array(b.state.pos, float))) and b.state.vel.norm() < 1e3 for b in O.bodies):
                raise Reject
    return {'nt': nt, 'labels': sorted(labels)}


def peri(case):
    import numpy as np
    import builtins
    from yade import wrapper as w, utils
    from minieigen import Vector3, Matrix3
    rng = np.random.default_rng(case['seed'])
    O = w.Omega()
    O.reset()
    O.periodic = True
    H = np.diag(rng.uniform(.8, 1.2, 3))
    H[0, 1] = case['skew'] * .05
    O.cell.hSize = Matrix3(*[float(x) for x in H.ravel()])
    O.cell.trsf = Matrix3.Identity
    O.materials.append(w.FrictMat(young=1e6, poisson=.3, frictionAngle=.4, density=1000))
    for k in range(case['n'] + 1):
        O.bodies.append(utils.sphere(Vector3(*(H @ rng.random(3))), rng.uniform(.08, .13)))
    hooks = builtins.__dict__.setdefault('_c31', [])
    del hooks[:]
    c = w.PeriTriaxController(dynCell=case['dyn'], growDamping=case['damp'], globUpdate=case['every'][0], maxStrainRate=Vector3(case['vmax'], case['vmax'] * 2, case['vmax']), relStressTol=case['tol'], absStressTol=case['atol'], maxUnbalanced=case['unb'], doneHook='import builtins; builtins._c31.append(1)')
    if case['mass']:
        c.mass = case['mass']
    O.trackEnergy = case['en']
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb()]), w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom()], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack()]), c, w.NewtonIntegrator(damping=.2)]
    O.dt = 1e-4
    M = lambda m: np.array([[m[i, j] for j in range(3)] for i in range(3)])
    stiff, stress, strain, grow = np.zeros(3), np.zeros(3), np.zeros(3), np.zeros(3)
    T = np.zeros((3, 3))
    span, work, ws, mass, unb = None, 0., 0., case['mass'], float('nan')
    V = M(O.cell.velGrad)
    expected = 0
    nt, labels = False, set()
    for seg in case['segs']:
        mask = seg['mask']
        O.dt = dt = seg['dt']
        goal = [(seg['goal'] or [-1e4] * 3)[a] if mask >> a & 1 else seg['rate'][a] * .02 for a in range(3)]
        c.goal, c.stressMask = Vector3(*goal), mask
        for _ in range(seg['n']):
            it = O.iter
            X = {b.id: np.array(b.state.pos, float) for b in O.bodies}
            prevV = V.copy()
            try:
                O.step()
            except RuntimeError as e:
                if 'cell size' in str(e):   # a documented limit: the cell became too small for its bodies
                    raise Reject
                raise
            h = M(O.cell.hSize)
            size = np.linalg.norm(h, axis=0)
            tr = M(O.cell.trsf)
            vol = np.linalg.det(h)
            if span is None:
                span = np.array(c.maxBodySpan, float)
                e = np.max([np.array(b.bound.max - b.bound.min, float) for b in O.bodies if b.bound], axis=0)
                check(close(span, e) or np.any(e >= size), 'largest body measures %s, the controller found %s', e, span)
            upd = it % case['every'][0] == 0
            if upd or stiff.min() <= 0 or case['dyn']:
                strain = np.log(np.diag(tr))
                T = np.zeros((3, 3))
                k, n = np.zeros(3), 0
                for I in O.interactions:
                    if not I.isReal:
                        continue
                    f = -np.array(I.phys.normalForce + I.phys.shearForce, float)
                    T += np.outer(f, X[I.id2] + h @ np.array(I.cellDist, float) - X[I.id1])
                    nn = np.abs(np.array(I.geom.normal, float))
                    k += nn * I.phys.kn + (1 - nn) * I.phys.ks
                    n += 1
                T /= vol
                stress = np.diag(T).copy()
                stiff = k / n if n and not case['dyn'] else np.zeros(3)
                if n:
                    labels.add('contacts')
            area = size.prod() / size
            ss = np.abs(T).max() + 1e-9
            if case['dyn'] and mass is None:
                mass = sum(b.state.mass for b in O.bodies)
            ok, tie = True, False
            R = np.diag(prevV).copy()
            vm = [case['vmax'], case['vmax'] * 2, case['vmax']]
            for a in range(3):
                r = R[a]
                if mask >> a & 1:
                    d = goal[a] - stress[a]
                    if not case['dyn']:
                        r = d * area[a] / (stiff[a] if stiff[a] > 0 else 1.) / dt
                    else:
                        if d * r != 0 and abs(d) < 1e-9 * ss:
                            raise Reject
                        r += (1 - case['damp'] * np.sign(r * d)) * dt * d / mass
                    nt = nt or np.abs(T).max() > 0
                    labels.add('stress')
                else:
                    r = (math.exp(goal[a] - strain[a]) - 1) / dt
                    labels.add('strain')
                if not case['dyn']:
                    r = (1 - case['damp']) * r + .8 * grow[a]
                if abs(r) > vm[a]:
                    r = math.copysign(vm[a], r)
                    labels.add('limited')
                r = max(r, -(size[a] - 2.1 * span[a]) / dt)
                strain[a] += r * dt
                cur = stress[a] if mask >> a & 1 else strain[a]
                rel = abs((cur - goal[a]) / goal[a]) if goal[a] else 0
                lr, la = (case['tol'], case['atol']) if mask >> a & 1 else (1e-6, 1e-6)
                if rel > lr or abs(cur - goal[a]) > la:
                    ok = False
                if abs(rel - lr) < 1e-5 * lr + (1e-11 if not mask >> a & 1 else 0) or abs(abs(cur - goal[a]) - la) < 1e-5 * la:
                    tie = True
                R[a] = r
            if not case['dyn']:
                for a in range(3):
                    if stiff[a] > 0:
                        stress[a] += R[a] * dt / size[a] * stiff[a] / area[a]
            newV = prevV.copy()
            for a in range(3):
                newV[a, a] = R[a]
            V = M(O.cell.velGrad)
            rs = np.abs(R).max() + 1e-3 / dt * 1e-6
            check(close(np.diag(V), R, rs), 'step %d: rates are %s, expected %s', it, np.diag(V), R)
            check(close(V, newV, rs), 'step %d: components of the velocity gradient which are not controlled changed: %s', it, V)
            check(close(c.strainRate, R, rs), 'step %d: strainRate is %s, expected %s', it, c.strainRate, R)
            check(close(c.stress, stress, ss), 'step %d: stress is %s, expected %s', it, c.stress, stress)
            check(close(M(c.stressTensor), T, ss), 'step %d: stress tensor is %s, expected %s', it, c.stressTensor, T)
            check(close(c.strain, strain, 1), 'step %d: strain is %s, expected %s', it, c.strain, strain)
            check(close(c.stiff, stiff, 1e6), 'step %d: stiffness is %s, expected %s', it, c.stiff, stiff)
            if case['dyn']:
                check(close(c.mass, mass), 'mass of the cell is %g, expected %g', c.mass, mass)
            dW = np.trace(.5 * (prevV + newV) @ T) * dt * vol
            work += dW
            ws += np.abs(.5 * (prevV + newV)).max() * np.abs(T).max() * dt * vol * 9
            check(abs(c.externalWork - work) <= 1e-7 * ws + 1e-14, 'step %d: external work is %g, expected %g', it, c.externalWork, work)
            if case['en']:
                check(abs(dict(O.energy.items())['velGradWork'] + work) <= 1e-7 * ws + 1e-14, 'step %d: velGradWork is %g, expected %g', it, dict(O.energy.items())['velGradWork'], -work)
            grow = R
            strain, stress, V = np.array(c.strain, float), np.array(c.stress, float), M(O.cell.velGrad)
            # goal reached
            if tie:
                unb = c.currUnbalanced
                expected = len(hooks)
                continue
            if ok:
                if upd or unb < 0:
                    unb = utils.unbalancedForce()
                    check(close(c.currUnbalanced, unb, 1) or (math.isnan(unb) and math.isnan(c.currUnbalanced)), 'step %d: unbalanced force is %g, expected %g', it, c.currUnbalanced, unb)
                if unb < case['unb']:
                    expected += 1
                    labels.add('done')
            check(len(hooks) == expected, 'step %d: doneHook was run %d times, expected %d', it, len(hooks), expected)
            if size.min() < .5 or size.max() > 3 or any(b.state.vel.norm() > 1e3 for b in O.bodies):
                raise Reject
    return {'nt': nt, 'labels': sorted(labels)}


def p3d(case):
    import numpy as np
    import builtins
    from yade import wrapper as w, utils
    from minieigen import Vector3, Matrix3, Vector6
    O = w.Omega()
    O.reset()
    O.periodic = True
    O.cell.setBox((1, 1, 1))
    O.bodies.append(utils.sphere((.5, .5, .5), .1))
    paths, raw = [], []
    for p in case['paths']:
        t, q = 0, []
        for d, v in p:
            t += d
            q.append([float(t), float(v)])
        if q[-1][1] == 0:
            q[-1][1] = 2.
        raw.append(q)
        paths.append([[a / q[-1][0], b / q[-1][1]] for a, b in q])
    n, dt = case['n'], case['dt']
    hooks = builtins.__dict__.setdefault('_c31', [])
    del hooks[:]
    from minieigen import Vector2
    c = w.Peri3dController(goal=Vector6(*case['goal']), stressMask=0, nSteps=n, maxStrainRate=1e9, **{k + 'Path': [Vector2(*x) for x in q] for k, q in zip(['xx', 'yy', 'zz', 'yz', 'zx', 'xy'], raw)})
    if case['hook']:
        c.doneHook = 'import builtins; builtins._c31.append(1)'
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb()]), c, w.NewtonIntegrator()]
    O.dt = dt
    goal = np.array(case['goal'])

    def at(i, s):
        P = [[0., 0.]] + paths[i]
        for a, b in zip(P, P[1:]):
            if s <= b[0] + 1e-12:
                return goal[i] * (a[1] + (b[1] - a[1]) * (s - a[0]) / (b[0] - a[0]))
        return goal[i]
    # a change of slope may be seen one step late, by rounding of the progress
    slack = np.array([abs(goal[i]) * max(abs(b[1] - a[1]) / (b[0] - a[0]) for a, b in zip([[0., 0.]] + paths[i], paths[i])) * 4 / n * len(paths[i]) for i in range(6)])
    single = [len(p) == 1 for p in paths]
    slack = np.where(single, 1e-9, slack + 1e-9)
    for k in range(1, n + 1):
        if c.dead:
            check(k >= n, 'the controller stopped after %d of %d steps', k - 1, n)
            break
        O.step()
        want = np.array([at(i, k / n) for i in range(6)])
        got = np.array(list(c.strain), float)
        check(np.all(np.abs(got - want) <= slack), 'step %d of %d: strain is %s, expected %s', k, n, got, want)
        if k % 7 == 0 or k == n:
            # what was prescribed until this step is applied to the cell in the next one
            eps = np.array([[got[0], got[5] / 2, got[4] / 2], [got[5] / 2, got[1], got[3] / 2], [got[4] / 2, got[3] / 2, got[2]]])
            F = np.eye(3) + np.array([[O.cell.velGrad[i, j] for j in range(3)] for i in range(3)]) * dt
            tr = F @ np.array([[O.cell.trsf[i, j] for j in range(3)] for i in range(3)])
            check(np.abs(tr - np.eye(3) - eps).max() <= 1e-7, 'step %d: the cell is deformed by %s, the strain is %s', k, tr - np.eye(3), eps)
    check(abs(c.progress - 1) <= 2. / n, 'progress is %g after %d steps of %d', c.progress, n, n)
    for _ in range(2):
        if not c.dead and not hooks:
            O.step()
    check(hooks if case['hook'] else c.dead, 'the end of the path is not signalled')
    return {'nt': any(goal), 'labels': ['p3d'] + (['path'] if not all(single) else [])}


def uni(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3
    rng = np.random.default_rng(case['seed'])
    O = w.Omega()
    O.reset()
    O.materials.append(w.FrictMat(young=1e6, poisson=.3, frictionAngle=.4, density=1000))
    ax = case['axis']
    r = .1
    x, groups = 0., []
    for n in (case['neg'], case['n'], case['pos']):
        ids = []
        for k in range(n):
            p = rng.uniform(-.05, .05, 3)
            p[ax] = x
            x += 2 * r * rng.uniform(.95, 1.02)
            ids.append(O.bodies.append(utils.sphere(Vector3(*p), r)))
        groups.append(ids)
    neg, mid, pos = groups
    if case['er'] and mid:
        O.bodies.erase(mid.pop(int(rng.integers(len(mid)))))
    rng.shuffle(neg)
    rng.shuffle(pos)
    neg, pos = [int(i) for i in neg], [int(i) for i in pos]
    loop = w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom()], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack()])
    O.dt = 1e-4
    O.engines = [w.ForceResetter()]
    for _ in range(case['t0']):
        O.step()
    X = lambda ids: np.array([O.bodies[i].state.pos[ax] for i in ids])
    L0 = X(pos)[0] - X(neg)[0]
    rate = case['rate']
    c = w.UniaxialStrainer(axis=ax, asymmetry=case['asym'], negIds=neg, posIds=pos, initAccelTime=case['acc'], limitStrain=case['limit'], blockDisplacements=case['bd'], blockRotations=case['br'], setSpeeds=case['set'], stressUpdateInterval=case['every'], crossSectionArea=case['area'])
    if case['speed']:
        c.absSpeed = rate * L0
    else:
        c.strainRate = rate
    if case['stop'] is not None:
        c.stopStrain = case['stop']
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb()], verletDist=.02), loop, c, w.NewtonIntegrator(damping=0)]
    cur, stress, reversed_, first = 0., 0., False, True
    names = 'xyz'
    dof = 'xyz' if case['bd'] else names[ax]
    dof += 'XYZ' if case['br'] else ''
    labels, nt = {'uni'}, False
    for n, new, half in case['segs']:
        if new is not None and not first:
            rate = new
            c.strainRate = new
        if half:
            O.dt = 5e-5
        for _ in range(n):
            it, t, dt = O.iter, O.time, O.dt
            if first:   # the time step of the first iteration counts
                acc = 0. if case['set'] else (case['acc'] if case['acc'] >= 0 else -case['acc'] * dt)
            p, q, m = X(neg), X(pos), X(mid)
            vm = np.array([O.bodies[i].state.vel[ax] for i in mid])
            O.step()
            F = lambda i: O.forces.f(i)[ax]
            cur = min(1., t / acc) * rate if abs(cur) < abs(rate) and acc else rate
            d = cur * L0 * dt
            strain = (q[0] - p[0]) / L0 - 1
            if case['stop'] is not None:
                s = case['stop']
                e = strain + d / L0
                if abs(abs(e) - abs(s)) < 1e-12:
                    raise Reject
                if e * s > 0 and abs(e) >= abs(s):
                    d = L0 * (1 + s) - (q[0] - p[0])
                    labels.add('stopped')
            if case['asym'] == 0:
                d *= .5
            for ids, x0, v, on in ((neg, p, -d / dt, case['asym'] != 1), (pos, q, d / dt, case['asym'] != -1)):
                for i, y in zip(ids, x0):
                    b = O.bodies[i].state
                    e = v if on else 0.
                    check(abs(b.vel[ax] - e) <= 1e-8 * (abs(rate) * L0 + 1), 'step %d: boundary body %d moves with %g, expected %g', it, i, b.vel[ax], e)
                    check(abs(b.pos[ax] - y - e * dt) <= 1e-11, 'step %d: boundary body %d moved by %g, expected %g', it, i, b.pos[ax] - y, e * dt)
                    check(b.blockedDOFs == dof, 'blocked degrees of freedom are %s, expected %s', b.blockedDOFs, dof)
            if first and case['set']:
                v0, v1 = {0: (-.5, .5), 1: (0, 1), -1: (-1, 0)}[case['asym']]
                vm = ((m - p[0]) / L0 * (v1 - v0) + v0) * rate * L0
            for i, v in zip(mid, vm):
                e = v + F(i) / O.bodies[i].state.mass * dt
                check(abs(O.bodies[i].state.vel[ax] - e) <= 1e-8 * (abs(e) + abs(rate) + 1), 'step %d: body %d moves with %g, expected %g', it, i, O.bodies[i].state.vel[ax], e)
            first = False
            check(abs(c.strain - strain) <= 1e-10, 'step %d: strain is %g, expected %g', it, c.strain, strain)
            lim = case['limit']
            if lim and not reversed_:
                if abs(strain - lim) < 1e-11:
                    raise Reject
                if (cur > 0 and strain > lim) or (cur < 0 and strain < lim):
                    rate = -rate
                    cur = rate
                    reversed_ = True
                    labels.add('reversed')
            if it % case['every'] == 0:
                stress = (sum(F(i) for i in neg) - sum(F(i) for i in pos)) / 2 / case['area']
                nt = nt or stress != 0
            check(abs(c.avgStress - stress) <= 1e-9 * (abs(stress) + 1), 'step %d: average stress is %g, expected %g', it, c.avgStress, stress)
            check(abs(c.originalLength - L0) <= 1e-12 and abs(c.currentStrainRate - cur) <= 1e-9 * abs(rate), 'step %d: strain rate is %g, expected %g', it, c.currentStrainRate, cur)
            check(c.active == ('stopped' not in labels), 'step %d: the strainer is %sactive at strain %g, stop at %s', it, '' if c.active else 'not ', strain, case['stop'])
            if 'stopped' in labels:
                check(O.stopAtIter == it + 1, 'the run will stop at step %d, expected %d', O.stopAtIter, it + 1)
                check(abs((X(pos)[0] - X(neg)[0]) / L0 - 1 - case['stop']) <= 1e-10, 'stopped at strain %g, expected %g', (X(pos)[0] - X(neg)[0]) / L0 - 1, case['stop'])
                return {'nt': nt, 'labels': sorted(labels)}
            if X(pos)[0] - X(neg)[0] < .3 * L0:
                raise Reject
    return {'nt': nt, 'labels': sorted(labels)}
