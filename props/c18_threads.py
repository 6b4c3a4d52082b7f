"""A simulation gives the same result whatever the number of OpenMP threads."""
from ylib import check, fail, Reject
import laws, math

RULE = 'a case is non-trivial when two or more threads were used and at least ten contacts carried force at some step (or contact detection was run on 1000 bodies or more after they moved)'
QUICK, THOROUGH = 40, 2500
SHARDS = 4
CASE_TIMEOUT = 200
ENV = {'OMP_NUM_THREADS': '4', 'OMP_DYNAMIC': 'false'}
ASSUMPTIONS = ['results may differ by rounding (the order of sums depends on threads): the tolerance follows from a run perturbed at that level; threads per process: 1 to 4; a race is only seen when the interleaving exhibits it: each case is run twice with threads; the lubrication model is left out (its sub-stepping recursion is limited by the stack)']


def strategy(tier):
    from hypothesis import strategies as st
    op = st.one_of(st.fixed_dictionaries({'k': st.sampled_from(['erase', 'add', 'clump', 'fix', 'threads']), 'at': st.integers(1, 20), 'i': st.integers(0, 2000), 'n': st.integers(1, 4)}))
    small = st.fixed_dictionaries({'law': st.sampled_from(['cundall', 'mindlin'] + [l for l in sorted(laws.LAWS) if l != 'lubr']), 'p': laws.params(), 'n': st.one_of(st.integers(5, 40), st.integers(20, 250)), 'seed': st.integers(0, 10**6), 'dt': st.sampled_from([1e-3, 2e-4]),
                                   'steps': st.integers(1, 25), 'verlet': st.sampled_from([0., .05, .2]), 'threads': st.integers(2, 4), 'ompThreads': st.sampled_from([-1, -1, 1, 2]), 'ops': st.lists(op, max_size=4),
                                   'kin': st.sampled_from([None, 'rot', 'trans', 'harm', 'helix', 'harmrot']), 'energy': st.booleans(), 'damping': st.sampled_from([0., .2]), 'axis': st.integers(0, 2)})
    big = st.fixed_dictionaries({'law': st.just('cundall'), 'p': laws.params(), 'n': st.integers(1000, 1500), 'seed': st.integers(0, 10**6), 'dt': st.sampled_from([1e-3, 4e-3]), 'steps': st.integers(2, 30),
                                 'verlet': st.sampled_from([.02, .1]), 'threads': st.integers(2, 4), 'ompThreads': st.sampled_from([-1, 2, 3]), 'ops': st.lists(op, max_size=3), 'kin': st.none(), 'energy': st.booleans(), 'damping': st.just(.2), 'axis': st.integers(0, 2), 'big': st.sampled_from([3., 30., 200.]), 'flat': st.booleans()})
    return st.one_of(small, small, small, big)


def spheres(case):
    import numpy as np
    R = np.random.RandomState(case['seed'])
    n = case['n']
    s = int(math.ceil(n ** (1 / 3.)))
    if case.get('flat'):
        dims = (s * 3, s * 2, s)
    else:
        dims = (s, s, s)
    sites = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    R.shuffle(sites)
    sp = case.get('big', 2.)
    return [dict(site=sites[k], j=R.uniform(-.08, .08, 3), r=.5 + R.uniform(-.05, .06), v=R.uniform(-sp, sp, 3), w=R.uniform(-3, 3, 3), m=int(R.randint(3))) for k in range(n)]


def simulate(case, threads, shake=0):
    import numpy as np, ctypes
    from yade import wrapper as w, utils
    from minieigen import Vector3
    gomp = ctypes.CDLL('libgomp.so.1')
    gomp.omp_set_num_threads(threads)
    B = laws.prepare(case['law'], spheres(case))
    if B is None:
        raise Reject
    if shake:
        R = np.random.RandomState(99)
        for b in B:
            b['j'] = np.array(b['j']) + R.uniform(-1, 1, 3) * 1e-14
            b['v'] = np.array(b['v']) * (1 + R.uniform(-1, 1, 3) * 1e-15)
    extra = []
    ki = list(range(0, case['n'], 3))
    k = case['kin']
    if k == 'rot':
        extra = [w.RotationEngine(ids=ki, rotationAxis=Vector3(1, 2, 2) / 3, angularVelocity=2., rotateAroundZero=True, zeroPoint=Vector3(1, 1, 1))]
    elif k == 'trans':
        extra = [w.TranslationEngine(ids=ki, translationAxis=Vector3(0, .6, .8), velocity=3.)]
    elif k == 'harm':
        extra = [w.HarmonicMotionEngine(ids=ki, A=Vector3(.1, .2, .1), f=Vector3(10, 7, 5), fi=Vector3(1, 0, 2))]
    elif k == 'helix':
        extra = [w.HelixEngine(ids=ki, rotationAxis=Vector3(0, 0, 1), angularVelocity=2., linearVelocity=.5, zeroPoint=Vector3(1, 1, 1), rotateAroundZero=True)]
    elif k == 'harmrot':
        extra = [w.HarmonicRotationEngine(ids=ki, A=.1, f=8., rotationAxis=Vector3(0, 0, 1), rotateAroundZero=True, zeroPoint=Vector3(1, 1, 1))]
    ids = laws.build(case['law'], case['p'], B, case['dt'], damping=case['damping'], verlet=case['verlet'], gravity=(0, 0, -5), extra=extra, trackE=case['energy'])
    O = w.Omega()
    if case['n'] >= 1000:
        O.engines[1].sortAxis = case['axis']
    if extra:
        for i in ki:
            O.bodies[i].dynamic = False
    for e in O.engines:
        if case['ompThreads'] > 0:
            e.ompThreads = case['ompThreads'] if threads > 1 else 1
    out = []
    for s in range(case['steps']):
        for op in case['ops']:
            if op['at'] == s:
                live = [b.id for b in O.bodies if b.isStandalone]
                if len(live) < 6:
                    continue
                i = live[op['i'] % len(live)]
                if op['k'] == 'erase':
                    O.bodies.erase(i)
                elif op['k'] == 'add':
                    b = utils.sphere(O.bodies[i].state.pos + Vector3(.02, .03, .9), .45, material=O.materials[0])
                    O.bodies.append(b)
                elif op['k'] == 'fix':
                    O.bodies[i].state.blockedDOFs = 'xyzXYZ'
                elif op['k'] == 'clump':
                    O.bodies.clump([i, live[(op['i'] + 1) % len(live)], live[(op['i'] + op['n'] + 1) % len(live)]])
        O.step()
        every = 1 if case['n'] < 30 else 4 if case['n'] < 300 else 10
        if (case['steps'] - 1 - s) % every:
            continue
        live = [b.id for b in O.bodies]
        S = dict(s=s, x=np.array([O.bodies[b].state.pos for b in live], float), v=np.array([O.bodies[b].state.vel for b in live], float), w=np.array([O.bodies[b].state.angVel for b in live], float),
                 f=np.array([O.forces.f(b, True) for b in live], float), t=np.array([O.forces.t(b, True) for b in live], float))
        S['o'] = np.array([[O.bodies[b].state.ori[q] for q in range(4)] for b in live], float)
        S['ke'] = np.array([utils.kineticEnergy()])
        if case['energy']:
            S['e'] = np.array([O.energy[q] for q in sorted(O.energy.keys())])
        S['maxv'] = np.array([O.engines[-1].maxVelocitySq if case['verlet'] else 0.])
        inter = [i for i in O.interactions]
        S['c'] = sorted((min(i.id1, i.id2), max(i.id1, i.id2)) for i in inter)
        if len(inter) != len(set(S['c'])):
            fail('step %d: with %d threads, %d interactions are listed for %d pairs', s, threads, len(inter), len(set(S['c'])))
        if not all(np.all(np.isfinite(S[q])) for q in 'xvwft'):
            raise Reject
        out.append(S)
    return out


def run(case):
    import numpy as np
    ref = simulate(case, 1)
    prt = simulate(case, 1, 1)
    nt = False
    for rep in range(2):
        par = simulate(case, case['threads'])
        for a, p, b in zip(ref, prt, par):
            s = a['s']
            if a['c'] != p['c']:
                break  # the run itself hesitates here at rounding level
            check(a['c'] == b['c'], 'step %d: %d contacts with one thread, %d with %d; only in one of them: %s', s, len(a['c']), len(b['c']), case['threads'], sorted(set(a['c']) ^ set(b['c']))[:6])
            stop = False
            for q in ('x', 'o', 'v', 'w', 'f', 't', 'ke', 'e', 'maxv'):
                if q not in a:
                    continue
                scale = np.max(np.abs(a[q])) + 1e-300
                sens = np.max(np.abs(a[q] - p[q]))
                if sens > 1e-5 * scale:
                    stop = True
                    break
                d = np.max(np.abs(a[q] - b[q])) if a[q].shape == b[q].shape else np.inf
                check(d <= 1e-9 * scale + 300 * sens, 'step %d: %s differs by %.3g (values up to %.3g, effect of rounding %.3g) between one thread and %d', s,
                      dict(x='position', o='orientation', v='velocity', w='angular velocity', f='force', t='torque', ke='kinetic energy', e='an energy of O.energy', maxv='maximum velocity')[q], d, scale, sens, case['threads'])
            if stop:
                break
            nt = nt or np.count_nonzero(np.abs(a['f']).sum(1)) > 10 or (case['n'] >= 1000 and s > 1)
    return {'nt': bool(nt), 'labels': [case['law'], 'threads%d' % case['threads'], 'big' if case['n'] >= 1000 else 'small'] + ['op_' + o['k'] for o in case['ops']] + ['kin_%s' % case['kin']]}
