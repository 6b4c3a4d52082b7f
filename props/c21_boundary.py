"""Boundary engines: prescribed motions and prescribed loads are exactly the documented ones, for any combination, order, schedule of changes and erased bodies."""
from ylib import check, fail
import math, os, tempfile

RULE = ('a case is non-trivial when at least one live body was really driven or loaded by an engine (non-zero velocity or load from the model), '
        'over at least two steps')
QUICK, THOROUGH = 1200, 60000
ENV = {'OMP_NUM_THREADS': '2'}
ASSUMPTIONS = ['aperiodic scene; driven bodies have all degrees of freedom blocked; ids listed once per engine; ids refer to existing or erased bodies; '
               'time points of interpolating engines increase', 'a pedal engine starts at the phase opposite to fi (the code\'s convention): only the circle, its sense and speed are checked']


def strategy(tier):
    from hypothesis import strategies as st
    f = st.one_of(st.integers(-24, 24).map(lambda x: x / 8), st.just(0.), st.floats(-5, 5).map(lambda x: round(x, 4)))
    v = st.tuples(f, f, f).map(list)
    axis = st.one_of(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [0, -2, 0]]), v.filter(lambda a: sum(x * x for x in a) > 1e-2)).map(lambda a: [float(x) for x in a])
    ids = st.sets(st.integers(0, 6), max_size=5).map(sorted)
    table = st.lists(st.tuples(st.integers(1, 12).map(lambda x: x / 8), f), min_size=1, max_size=5).map(list)

    kin = st.one_of(
        st.fixed_dictionaries({'k': st.just('trans'), 'velocity': f, 'axis': axis}),
        st.fixed_dictionaries({'k': st.just('harm'), 'A': v, 'f': v, 'fi': st.one_of(st.none(), v)}),
        st.fixed_dictionaries({'k': st.just('rot'), 'w': f, 'axis': axis, 'around': st.booleans(), 'zero': v}),
        st.fixed_dictionaries({'k': st.just('helix'), 'w': f, 'axis': axis, 'lin': f, 'zero': v}),
        st.fixed_dictionaries({'k': st.just('ihelix'), 'axis': axis, 'zero': v, 't0': f, 'table': table, 'wrap': st.booleans(), 'slope': f}),
        st.fixed_dictionaries({'k': st.just('harmrot'), 'A': f, 'f': f, 'fi': st.one_of(st.none(), f), 'axis': axis, 'around': st.booleans(), 'zero': v}),
        st.fixed_dictionaries({'k': st.just('servo'), 'axis': axis, 'max': f, 'target': f, 'kP': f, 'kI': f, 'kD': f, 'period': st.integers(1, 4)}),
        st.fixed_dictionaries({'k': st.just('pedal'), 'w': f, 'axis': axis, 'radius': st.integers(1, 20).map(lambda x: x / 8), 'fi': f}),
        st.fixed_dictionaries({'k': st.just('stepd'), 'mov': v, 'rotv': v, 'vel': st.booleans()}))
    load = st.one_of(
        st.fixed_dictionaries({'k': st.just('force'), 'F': v}),
        st.fixed_dictionaries({'k': st.just('torque'), 'T': v}),
        st.fixed_dictionaries({'k': st.just('iforce'), 'axis': axis, 't0': f, 'table': table, 'wrap': st.booleans()}),
        st.fixed_dictionaries({'k': st.just('radial'), 'pt': v, 'axis': axis, 'f': f}),
        st.fixed_dictionaries({'k': st.just('drag'), 'rho': f.map(abs), 'cd': f.map(abs)}),
        st.fixed_dictionaries({'k': st.just('ldrag'), 'nu': f.map(abs)}),
        st.fixed_dictionaries({'k': st.just('grav'), 'g': v, 'mask': st.integers(0, 7)}),
        st.fixed_dictionaries({'k': st.just('cgrav'), 'c': st.integers(0, 6), 'a': f, 'recip': st.booleans(), 'mask': st.integers(0, 7)}),
        st.fixed_dictionaries({'k': st.just('agrav'), 'pt': v, 'axis': axis, 'a': f, 'mask': st.integers(0, 7)}))
    meta = {'ids': ids, 'comb': st.booleans(), 'dead': st.sampled_from([False] * 5 + [True])}
    add = lambda s: st.tuples(s, st.fixed_dictionaries(meta)).map(lambda t: dict(t[0], **t[1]))
    rec = st.fixed_dictionaries({'k': st.sampled_from(['frec', 'trec']), 'ids': ids, 'axis': axis, 'zero': v, 'period': st.integers(1, 3)})
    body = st.fixed_dictionaries({'kind': st.sampled_from(['s', 's', 's', 'b']), 'pos': v, 'r': st.integers(1, 8).map(lambda x: x / 8), 'q': st.tuples(*[st.integers(-3, 3)] * 4).map(list),
                                  'mask': st.integers(1, 7), 'vel': v, 'clump': st.sampled_from([0, 0, 0, 1, 2])})
    chg = st.fixed_dictionaries({'at': st.integers(1, 8), 'e': st.integers(0, 5), 'f': f, 'v': v, 'what': st.sampled_from(['erase', 'dt', 'scalar', 'vector', 'axis', 'ids', 'dead']), 'ids': ids,
                                 'axis': axis})
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=2, max_size=6), 'erase': st.sets(st.integers(0, 5), max_size=2).map(sorted),
                                  'kin': st.lists(add(kin), max_size=4), 'load': st.lists(add(load), max_size=4), 'rec': st.lists(rec, max_size=2),
                                  'steps': st.integers(2, 10), 'dt': st.sampled_from([.125, .01, 1e-3, .3]), 'changes': st.lists(chg, max_size=3), 'energy': st.booleans(),
                                  'newton': st.sampled_from([True, True, True, False])})


SCALAR = {'trans': 'velocity', 'rot': 'w', 'helix': 'w', 'pedal': 'w', 'servo': 'target', 'radial': 'f', 'cgrav': 'a', 'agrav': 'a', 'harmrot': 'A', 'ihelix': 'slope'}
VECTOR = {'harm': 'A', 'rot': 'zero', 'helix': 'zero', 'ihelix': 'zero', 'stepd': 'mov', 'force': 'F', 'torque': 'T', 'radial': 'pt', 'grav': 'g', 'agrav': 'pt'}
PYNAME = {('trans', 'velocity'): 'velocity', ('rot', 'w'): 'angularVelocity', ('helix', 'w'): 'angularVelocity', ('pedal', 'w'): 'angularVelocity', ('servo', 'target'): 'target',
          ('radial', 'f'): 'fNorm', ('cgrav', 'a'): 'accel', ('agrav', 'a'): 'acceleration', ('harmrot', 'A'): 'A', ('ihelix', 'slope'): 'slope', ('harm', 'A'): 'A', ('rot', 'zero'): 'zeroPoint',
          ('helix', 'zero'): 'zeroPoint', ('ihelix', 'zero'): 'zeroPoint', ('stepd', 'mov'): 'mov', ('force', 'F'): 'force', ('torque', 'T'): 'moment', ('radial', 'pt'): 'axisPt', ('grav', 'g'): 'gravity',
          ('agrav', 'pt'): 'axisPoint'}
AXIS = {'trans': 'translationAxis', 'rot': 'rotationAxis', 'helix': 'rotationAxis', 'ihelix': 'rotationAxis', 'harmrot': 'rotationAxis', 'pedal': 'rotationAxis', 'servo': 'axis', 'iforce': 'direction',
        'radial': 'axisDir', 'agrav': 'axisDirection'}


def table(d):
    t, T, V = d['t0'], [], []
    for dt, v in d['table']:
        t += dt
        T.append(t)
        V.append(v)
    return T, V


def interp(d, t):
    T, V = table(d)
    if d['wrap']:
        if len(T) < 2:
            return V[0]
        p = T[-1] - T[0]
        x = (t - T[0]) / p
        t = T[0] + (x - math.floor(x)) * p
    if t <= T[0]:
        return V[0]
    if t >= T[-1]:
        return V[-1]
    for i in range(len(T) - 1):
        if T[i] <= t <= T[i + 1]:
            return V[i] + (V[i + 1] - V[i]) * (t - T[i]) / (T[i + 1] - T[i])


def edge(d, t):
    """wrapping exactly at the period boundary, or next to it, is decided by rounding"""
    T, V = table(d)
    if not d['wrap'] or len(T) < 2:
        return False
    x = (t - T[0]) / (T[-1] - T[0])
    return abs(x - round(x)) < 1e-9


def run(case):
    import numpy as np
    import yade
    from yade import wrapper as W, utils
    from yade.wrapper import Omega
    from minieigen import Quaternion, Vector3
    from geom import qmat as rot

    def V3(a):
        return Vector3(*[float(x) for x in a])
    O = Omega()
    O.reset()
    O.dt = dt = case['dt']
    O.trackEnergy = case['energy']
    n0 = len(case['bodies'])
    groups = {}
    for i, d in enumerate(case['bodies']):
        q = np.array(d['q'], float)
        q = q / np.linalg.norm(q) if np.linalg.norm(q) else np.array([1., 0, 0, 0])
        ori = Quaternion(*q)
        if d['kind'] == 's':
            b = utils.sphere(V3(d['pos']), d['r'])
            b.state.ori = ori
        else:
            b = utils.box(V3(d['pos']), V3([d['r']] * 3), orientation=ori)
        b.mask = d['mask']
        b.state.vel = V3(d['vel'])
        b.state.blockedDOFs = 'xyzXYZ'
        O.bodies.append(b)
        if d['clump']:
            groups.setdefault(d['clump'], []).append(i)
    clumps = []
    for g, m in sorted(groups.items()):
        if case['kin'] or len(m) < 2:
            continue                    # driven members of clumps are covered by the clump property
        cid = O.bodies.clump(m)
        O.bodies[cid].state.blockedDOFs = 'xyzXYZ'
        clumps.append(cid)
    n = len(O.bodies)
    member = {i for i in range(n) if O.bodies[i].isClumpMember}
    for e in case['erase']:
        if e < n0 and e not in member:
            O.bodies.erase(e)
    B = {}                               # the model's bodies
    for i in range(n):
        b = O.bodies[i]
        if b is None:
            continue
        s = b.state
        B[i] = {'pos': np.array(s.pos), 'R': rot(s.ori), 'vel': np.array(s.vel), 'w': np.array(s.angVel), 'm': s.mass, 'mask': b.mask, 'clump': b.isClump,
                'r': b.shape.radius if isinstance(b.shape, W.Sphere) else None}

    def build(d):
        k = d['k']
        ids = [i for i in d['ids'] if i < n]
        ax = V3(d['axis']) if 'axis' in d else None
        if k == 'trans':
            return W.TranslationEngine(ids=ids, velocity=d['velocity'], translationAxis=ax)
        if k == 'harm':
            e = W.HarmonicMotionEngine(ids=ids, A=V3(d['A']), f=V3(d['f']))
            if d['fi'] is not None:
                e.fi = V3(d['fi'])
            return e
        if k == 'rot':
            return W.RotationEngine(ids=ids, angularVelocity=d['w'], rotationAxis=ax, rotateAroundZero=d['around'], zeroPoint=V3(d['zero']))
        if k == 'helix':
            return W.HelixEngine(ids=ids, angularVelocity=d['w'], rotationAxis=ax, linearVelocity=d['lin'], zeroPoint=V3(d['zero']))
        if k == 'ihelix':
            T, V = table(d)
            return W.InterpolatingHelixEngine(ids=ids, rotationAxis=ax, zeroPoint=V3(d['zero']), times=T, angularVelocities=V, wrap=d['wrap'] and len(T) > 1, slope=d['slope'])
        if k == 'harmrot':
            e = W.HarmonicRotationEngine(ids=ids, A=d['A'], f=d['f'], rotationAxis=ax, rotateAroundZero=d['around'], zeroPoint=V3(d['zero']))
            if d['fi'] is not None:
                e.fi = d['fi']
            return e
        if k == 'servo':
            return W.ServoPIDController(ids=ids, axis=ax, maxVelocity=d['max'], target=d['target'], kP=d['kP'], kI=d['kI'], kD=d['kD'], iterPeriod=d['period'])
        if k == 'pedal':
            return W.BicyclePedalEngine(ids=ids, angularVelocity=d['w'], rotationAxis=ax, radius=d['radius'], fi=d['fi'])
        if k == 'stepd':
            a = np.array(d['rotv'])
            q = Quaternion(V3(a / np.linalg.norm(a)), float(np.linalg.norm(a))) if np.linalg.norm(a) else Quaternion.Identity
            return W.StepDisplacer(ids=ids, mov=V3(d['mov']), rot=q, setVelocities=d['vel'])
        if k == 'force':
            return W.ForceEngine(ids=ids, force=V3(d['F']))
        if k == 'torque':
            return W.TorqueEngine(ids=ids, moment=V3(d['T']))
        if k == 'iforce':
            T, V = table(d)
            return W.InterpolatingDirectedForceEngine(ids=ids, times=T, magnitudes=V, direction=ax, wrap=d['wrap'] and len(T) > 1)
        if k == 'radial':
            return W.RadialForceEngine(ids=ids, axisPt=V3(d['pt']), axisDir=ax, fNorm=d['f'])
        if k == 'drag':
            return W.DragEngine(ids=ids, Rho=d['rho'], Cd=d['cd'])
        if k == 'ldrag':
            return W.LinearDragEngine(ids=ids, nu=d['nu'])
        if k == 'grav':
            return W.GravityEngine(gravity=V3(d['g']), mask=d['mask'], warnOnce=False)
        if k == 'cgrav':
            return W.CentralGravityEngine(centralBody=d['c'], accel=d['a'], reciprocal=d['recip'], mask=d['mask'])
        if k == 'agrav':
            return W.AxialGravityEngine(axisPoint=V3(d['pt']), axisDirection=ax, acceleration=d['a'], mask=d['mask'])

    K = [dict(d) for d in case['kin']]
    down = lambda a: a[2] < 0 and math.hypot(a[0], a[1]) < 1e-3 * abs(a[2])
    for d in K:
        if d['k'] == 'pedal' and down(d['axis']):
            d['axis'] = [0., 0., 1.]     # the axes in the plane are arbitrary when the rotation axis is opposite to z
    L = [dict(d) for d in case['load'] if not (d['k'] == 'cgrav' and d['c'] not in B)]
    for d in K + L:
        d['py'] = build(d)
        d['py'].dead = d['dead']
        d['ids'] = [i for i in d['ids'] if i < n]
        d['angle'] = 0.
    # combine: an engine with the flag is added to the previous one (or to its combination)
    KG, pyk = [], []
    for d in K:
        if d['comb'] and KG and d['k'] != 'stepd' and KG[-1][0]['k'] != 'stepd':
            pyk[-1] = pyk[-1] + d['py']
            KG[-1].append(d)
            if len(KG[-1]) == 2:
                pyk[-1].dead = False
        else:
            KG.append([d])
            pyk.append(d['py'])
    tmp = tempfile.mkdtemp(prefix='c21')
    R = []
    for j, d in enumerate(case['rec']):
        d = dict(d)
        d['ids'] = [i for i in d['ids'] if i < n]
        d['file'] = os.path.join(tmp, 'r%d' % j)
        if d['k'] == 'frec':
            d['py'] = W.ForceRecorder(ids=d['ids'], file=d['file'], iterPeriod=d['period'], initRun=True)
        else:
            d['py'] = W.TorqueRecorder(ids=d['ids'], file=d['file'], iterPeriod=d['period'], initRun=True, rotationAxis=V3(d['axis']), zeroPoint=V3(d['zero']))
        d['lines'] = []
        R.append(d)
    # a controller or recorder reads the loads of the step and must follow the engine which sums them (the integrator)
    late = [any(d['k'] == 'servo' for d in g) for g in KG]
    sync = W.NewtonIntegrator(damping=0)
    if not case['newton']:
        sync.mask = 1 << 20              # sums up the loads, moves nothing
    O.engines = ([W.ForceResetter()] + [d['py'] for d in L] + [p for p, l in zip(pyk, late) if not l] + [sync] + [p for p, l in zip(pyk, late) if l] + [d['py'] for d in R])
    unit = lambda a: np.array(a) / np.linalg.norm(a)

    def rodr(v, w):
        th = np.linalg.norm(w)
        if th == 0:
            return v
        k = w / th
        return v * math.cos(th) + np.cross(k, v) * math.sin(th) + k * np.dot(k, v) * (1 - math.cos(th))

    def rodm(w):
        return np.array([rodr(e, w) for e in np.eye(3)]).T
    t, it, driven, work, lost = 0., 0, 0, 0., False
    labels = {d['k'] for d in K} | {d['k'] for d in L} | {d['k'] for d in R}
    slack = 1e-9

    def kinematic(d, ids, F):
        nonlocal driven
        k = d['k']
        live = [i for i in ids if i in B]
        if not ids and k != 'servo':
            return
        ax = unit(d['axis']) if 'axis' in d else None

        def turn(w, around):
            nonlocal driven
            for i in live:
                b = B[i]
                b['w'] = b['w'] + w * ax
                if around:
                    l = b['pos'] - np.array(d['zero'])
                    b['vel'] = b['vel'] + (rodr(l, w * dt * ax) - l) / dt
                driven += bool(w)
        if k == 'trans':
            for i in live:
                B[i]['vel'] = B[i]['vel'] + d['velocity'] * ax
                driven += bool(d['velocity'])
        elif k == 'harm':
            w = 2 * math.pi * np.array(d['f'])
            fi = np.array(d['fi']) if d['fi'] is not None else np.array([math.pi / 2] * 3)
            u = -np.array(d['A']) * w * np.sin(w * t + fi)
            for i in live:
                B[i]['vel'] = B[i]['vel'] + u
                driven += bool(np.linalg.norm(u))
        elif k == 'rot':
            turn(d['w'], d['around'])
        elif k in ('helix', 'ihelix'):
            if k == 'ihelix':
                w = interp(d, t)
                if edge(d, t):
                    w = d['py'].angularVelocity
                    T, V = table(d)
                    check(abs(w - V[0]) < 1e-6 or abs(w - V[-1]) < 1e-6, 'interpolated angular velocity %r at the end of the table', w)
                lin = w * d['slope']
            else:
                w, lin = d['w'], d['lin']
            for i in live:
                B[i]['vel'] = B[i]['vel'] + lin * ax
            turn(w, True)
            d['angle'] += w * dt
        elif k == 'harmrot':
            w = 2 * math.pi * d['f']
            fi = d['fi'] if d['fi'] is not None else math.pi / 2
            turn(-d['A'] * w * math.sin(w * t + fi), d['around'])
        elif k == 'servo':
            if d.get('last') is None or it - d['last'] >= d['period']:
                f = abs(np.dot(sum((F[i][0] for i in live), np.zeros(3)), ax))
                err = f - d['target']
                d['I'] = d.get('I', 0.) + err * d['kI']
                c = err * d['kP'] + d['I'] + (err - d.get('prev', 0.)) * d['kD']
                d['prev'] = err
                if abs(c) > abs(d['max']):
                    c *= abs(d['max']) / abs(c)
                d['c'] = c
                d['last'] = it
            for i in live:
                B[i]['vel'] = B[i]['vel'] + d['c'] * ax
                driven += bool(d['c'])
        elif k == 'pedal':
            # the model moves the body on its circle; the plane is spanned as setFromTwoVectors(z, axis) does
            z = np.array([0, 0, 1.])
            c = np.cross(z, ax)
            s, co = np.linalg.norm(c), ax[2]
            if s < 1e-6:
                M = np.eye(3)
            else:
                M = rodm(c / s * math.atan2(s, co))
            a0, a1 = d['fi'], d['fi'] + d['w'] * dt
            u = M @ (np.array([math.cos(a0) - math.cos(a1), math.sin(a0) - math.sin(a1), 0]) * d['radius'] / dt)
            d['fi'] = a1
            for i in live:
                B[i]['vel'] = B[i]['vel'] + u
                driven += bool(d['w'])

    for step in range(case['steps']):
        for c in case['changes']:
            if c['at'] != step:
                continue
            w = c['what']
            if w == 'erase':
                if c['e'] < n0 and c['e'] in B and c['e'] not in member and not any(d['k'] == 'cgrav' and d['c'] == c['e'] for d in L):
                    O.bodies.erase(c['e'])
                    del B[c['e']]
                    labels.add('erased')
            elif w == 'dt':
                dt = O.dt = .05 + abs(c['f']) / 20
            else:
                E = K + L
                if not E:
                    continue
                d = E[c['e'] % len(E)]
                k = d['k']
                if w == 'scalar' and k in SCALAR:
                    d[SCALAR[k]] = c['f']
                    setattr(d['py'], PYNAME[k, SCALAR[k]], c['f'])
                elif w == 'vector' and k in VECTOR:
                    d[VECTOR[k]] = c['v']
                    setattr(d['py'], PYNAME[k, VECTOR[k]], V3(c['v']))
                elif w == 'axis' and k in AXIS and not (k == 'pedal' and down(c['axis'])):
                    a = c['axis']
                    if k == 'servo':      # it normalizes its axis only when it evaluates the force
                        a = list(np.array(a, float) / np.linalg.norm(a))
                    d['axis'] = a
                    setattr(d['py'], AXIS[k], V3(a))
                elif w == 'ids' and k not in ('grav', 'cgrav', 'agrav'):
                    d['ids'] = [i for i in c['ids'] if i < n]
                    d['py'].ids = d['ids']
                    for g, p in zip(KG, pyk):
                        if g[0] is d and len(g) > 1:
                            p.ids = d['ids']
                elif w == 'dead':
                    d['dead'] = not d['dead']
                    d['py'].dead = d['dead']
                labels.add('change ' + w)
        # ---- model: loads
        F = {i: [np.zeros(3), np.zeros(3)] for i in B}
        for d in L:
            if d['dead']:
                continue
            k = d['k']
            live = [i for i in d['ids'] if i in B]
            ax = unit(d['axis']) if 'axis' in d else None
            if k == 'force':
                for i in live:
                    F[i][0] += d['F']
            elif k == 'torque':
                for i in live:
                    F[i][1] += d['T']
            elif k == 'iforce':
                for i in live:
                    d['edge'] = edge(d, t)
                    F[i][0] += (interp(d, t) if not d['edge'] else None) * ax if not d['edge'] else np.nan
            elif k == 'radial':
                for i in live:
                    r = B[i]['pos'] - np.array(d['pt'])
                    r = r - np.dot(r, ax) * ax
                    if np.linalg.norm(r) > 1e-9:
                        F[i][0] += d['f'] * r / np.linalg.norm(r)
                    else:
                        F[i][0] += np.nan
            elif k == 'drag':
                for i in live:
                    if B[i]['r']:
                        u = B[i]['vel']
                        F[i][0] += -.5 * d['rho'] * d['cd'] * math.pi * B[i]['r']**2 * np.linalg.norm(u) * u
            elif k == 'ldrag':
                for i in live:
                    if B[i]['r']:
                        F[i][0] += -6 * math.pi * d['nu'] * B[i]['r'] * B[i]['vel']
            else:
                for i, b in B.items():
                    if b['clump'] or (d['mask'] and not (b['mask'] & d['mask'])):
                        continue
                    if k == 'grav':
                        F[i][0] += np.array(d['g']) * b['m']
                        work -= np.dot(d['g'], b['vel']) * b['m'] * dt
                    elif k == 'cgrav':
                        if i == d['c']:
                            continue
                        r = B[d['c']]['pos'] - b['pos']
                        if np.linalg.norm(r) < 1e-9:
                            F[i][0] += np.nan
                            F[d['c']][0] += np.nan
                            continue
                        f = d['a'] * b['m'] * r / np.linalg.norm(r)
                        F[i][0] += f
                        if d['recip']:
                            F[d['c']][0] -= f
                    else:
                        r = np.array(d['pt']) - b['pos']
                        r = r - np.dot(r, ax) * ax
                        F[i][0] += d['a'] * b['m'] * r / np.linalg.norm(r) if np.linalg.norm(r) > 1e-9 else np.nan
        # ---- model: motions
        for b in B.values():
            b['any'] = False
        undecided = any(np.isnan(F[i][0]).any() for i in F)
        if undecided and any(d['k'] == 'servo' for d in K):
            break                        # a load decided by rounding feeds a controller: nothing more to compare

        def drive(g):
            nonlocal driven
            first = g[0]
            if first['k'] == 'stepd':
                d = first
                if d['dead']:
                    return
                for i in d['ids']:
                    if i in B:
                        if d['vel']:
                            a = np.array(d['rotv'])
                            if np.linalg.norm(a) > 3.1:
                                B[i]['any'] = True
                            B[i]['vel'] = np.array(d['mov']) / dt
                            B[i]['w'] = a / dt
                        else:
                            B[i]['pos'] = B[i]['pos'] + np.array(d['mov'])
                            B[i]['R'] = rodm(np.array(d['rotv'])) @ B[i]['R']
                        driven += 1
                return
            if len(g) == 1 and first['dead']:
                return
            ids = first['ids']
            if not ids:
                return
            for i in ids:
                if i in B:
                    B[i]['vel'], B[i]['w'] = np.zeros(3), np.zeros(3)
                    B[i]['any'] = False
            for d in g:
                if not d['dead']:
                    kinematic(d, ids, F)
        # ---- the real step
        O.step()
        # the model's step: motions, integration, then the controllers
        for g, l in zip(KG, late):
            if not l:
                drive(g)
        for i, b in B.items():
            if i in member or b['clump']:
                continue
            if b['any']:
                st = O.bodies[i].state
                if i not in [j for g, l in zip(KG, late) if l for j in g[0]['ids']]:
                    b['vel'], b['w'] = np.array(st.vel), np.array(st.angVel)
                else:
                    lost = True
            if case['newton']:
                b['pos'] = b['pos'] + dt * b['vel']
                b['R'] = rodm(dt * b['w']) @ b['R']
        for i in list(member) + clumps:
            if i in B and O.bodies[i] is not None:
                st = O.bodies[i].state
                B[i].update(pos=np.array(st.pos), vel=np.array(st.vel), w=np.array(st.angVel), R=rot(st.ori))
        for g, l in zip(KG, late):
            if l:
                drive(g)
        if lost:
            break
        it += 1
        # ---- loads
        for i in B:
            b = B[i]
            f, m = np.array(O.forces.f(i)), np.array(O.forces.t(i))
            if not np.isnan(F[i][0]).any():
                if not (b['clump'] and case['newton']):
                    sc = 1 + np.abs(F[i][0]).max()
                    check(bool(np.allclose(f, F[i][0], rtol=1e-9, atol=1e-9 * sc)), 'step %d: force on body %d is %s, engines prescribe %s', step, i, list(f), list(F[i][0]))
                    check(bool(np.allclose(m, F[i][1], rtol=1e-9, atol=1e-9)), 'step %d: torque on body %d is %s, engines prescribe %s', step, i, list(m), list(F[i][1]))
                    driven += bool(np.linalg.norm(F[i][0]) + np.linalg.norm(F[i][1]))
        for i in range(n):
            if i not in B:
                check(O.bodies[i] is None, 'erased body %d is back', i)
        # ---- recorders, at their iterations, from the loads of this step and the positions after it
        for d in R:
            d['ids_live'] = [i for i in d['ids'] if i in B and not B[i]['clump']]
            if (step % d['period']) == 0 and not any(B[i]['clump'] for i in d['ids'] if i in B):
                pos = {i: B[i]['pos'] for i in d['ids_live']}
                if d['k'] == 'frec':
                    tot = sum((F[i][0] for i in d['ids_live']), np.zeros(3))
                    got = np.array(d['py'].totalForce)
                else:
                    a = unit(d['axis'])
                    tot = np.array([sum(np.dot(a, F[i][1] + np.cross(pos[i] - np.array(d['zero']), F[i][0])) for i in d['ids_live'])])
                    got = np.array([d['py'].totalTorque])
                if not np.isnan(tot).any():
                    sc = 1 + sum(np.abs(F[i][0]).sum() * (1 + np.linalg.norm(pos[i]) + 5) for i in d['ids_live'])
                    check(bool(np.allclose(got, tot, rtol=1e-8, atol=1e-9 * sc)), 'step %d: %s reports %s, the loads on its bodies sum to %s', step, d['k'], list(got), list(tot))
                d['lines'].append((it - 1, got))
            elif (step % d['period']) == 0:
                d['lines'].append((it - 1, None))
        # ---- motions
        for i, b in B.items():
            if i in member or b['clump']:
                continue
            s = O.bodies[i].state
            sv = 1 + np.abs(b['vel']).max() + np.abs(b['w']).max()
            check(bool(np.allclose(np.array(s.vel), b['vel'], rtol=1e-8, atol=1e-9 * sv / min(1, dt))), 'step %d: velocity of body %d is %s, engines prescribe %s', step, i, list(s.vel), list(b['vel']))
            check(bool(np.allclose(np.array(s.angVel), b['w'], rtol=1e-8, atol=1e-9 * sv / min(1, dt))), 'step %d: angular velocity of body %d is %s, engines prescribe %s', step, i, list(s.angVel), list(b['w']))
            check(bool(np.allclose(np.array(s.pos), b['pos'], rtol=1e-9, atol=1e-9 * (1 + sv))), 'step %d: position of body %d is %s, expected %s', step, i, list(s.pos), list(b['pos']))
            check(bool(np.allclose(rot(s.ori), b['R'], atol=1e-8)), 'step %d: orientation of body %d differs', step, i)
            b['pos'] = np.array(s.pos)
            b['vel'], b['w'] = np.array(s.vel), np.array(s.angVel)
        t += dt
        for d in K:
            if d['k'] in ('helix', 'ihelix') and not any(x.get('edge') for x in [d]):
                check(abs(d['py'].angleTurned - d['angle']) < 1e-7 * (1 + abs(d['angle'])), 'step %d: angleTurned is %r, the sum of the turns is %r', step, d['py'].angleTurned, d['angle'])
        if case['energy'] and any(d['k'] == 'grav' for d in L) and not any(b['clump'] for b in B.values()):
            got = dict(O.energy.items()).get('gravWork', 0.)
            check(abs(got - work) < 1e-8 * (1 + abs(work)) + 1e-9, 'step %d: gravWork is %r, work of gravity is %r', step, got, work)
    for d in R:
        if not d['lines']:
            continue
        rows = [list(map(float, l.split())) for l in open(d['file']).read().splitlines()]
        check([int(r[0]) for r in rows] == [l[0] for l in d['lines']], '%s wrote rows for iterations %s, expected %s', d['k'], [r[0] for r in rows], [l[0] for l in d['lines']])
        for r, (i, got) in zip(rows, d['lines']):
            if got is None or np.isnan(got).any():
                continue
            exp = list(got) + ([float(np.linalg.norm(got))] if d['k'] == 'frec' else [])
            check(len(r) == len(exp) + 1 and bool(np.allclose(r[1:], exp, rtol=2e-5, atol=1e-9 * (1 + np.abs(exp).max()))), '%s wrote %s, total was %s', d['k'], r, exp)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return {'nt': driven > 0 and case['steps'] >= 2, 'labels': sorted(labels)}
