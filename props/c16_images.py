"""Periodic scenes: nothing depends on which image of a body is simulated, on where the cell lies, on which cell generates the lattice, nor on how many periods are simulated."""
from ylib import check, fail, Reject
import laws, math

RULE = 'a case is non-trivial when a contact carried force in two or more steps in the base run and the other run has a body in another period, or a flipped, enlarged or translated cell'
QUICK, THOROUGH = 700, 20000
ASSUMPTIONS = ['the stress is compared for contact models with normal and shear force (not for bubbles)', 'spheres small enough for the documented limit of half a period; runs that come near a discontinuity (creation or breakage of a contact at a different step) are compared up to that step']
NILPOTENT = ('lubr', 'hls')   # take the velocity jump across periods to first order in the time step: exact for simple shear only


def strategy(tier):
    from hypothesis import strategies as st
    e = st.integers(-4, 4).map(lambda x: x / 8)
    grad = st.one_of(st.lists(e, min_size=9, max_size=9), st.lists(e, min_size=9, max_size=9), st.tuples(st.sampled_from([1, 2, 3, 5, 6, 7]), st.integers(-6, 6).map(lambda x: x / 8)).map(lambda t: [t[1] if i == t[0] else 0. for i in range(9)]),
                     st.just([0.] * 9))
    n3 = st.tuples(*[st.integers(-3, 3)] * 3).map(list)
    c = st.integers(-20, 20).map(lambda x: x / 4)
    kinds = st.one_of(
        st.fixed_dictionaries({'k': st.just('image'), 'n': st.lists(n3, min_size=5, max_size=5)}),
        st.fixed_dictionaries({'k': st.just('image'), 'n': st.lists(n3, min_size=5, max_size=5)}),
        st.fixed_dictionaries({'k': st.just('trans'), 't': st.tuples(c, c, c).map(list)}),
        st.fixed_dictionaries({'k': st.just('super'), 'axis': st.integers(0, 2), 'm': st.integers(2, 3)}),
        st.fixed_dictionaries({'k': st.just('free')}),
        st.fixed_dictionaries({'k': st.just('flip'), 'at': st.lists(st.tuples(st.integers(0, 12), st.sampled_from([(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]), st.sampled_from([-1, 1])).map(list), min_size=1, max_size=3)}))
    return st.fixed_dictionaries({'law': st.sampled_from(['cundall', 'mindlin'] + sorted(laws.LAWS)), 'p': laws.params(), 'bodies': laws.packing(2, 5), 'dt': st.sampled_from([1e-3, 4e-3, 2e-4]),
                                  'steps': st.integers(2, 24), 'verlet': st.sampled_from([0., .05]), 'T': kinds, 'damping': st.sampled_from([0., 0., .3]),
                                  'size': st.tuples(*[st.sampled_from([3., 3.2, 4., 6.])] * 3).map(list), 'skew': st.one_of(st.just([0] * 9), st.lists(st.integers(-3, 3), min_size=9, max_size=9)),
                                  'orig': st.tuples(c, c, c).map(list), 'grads': st.lists(st.tuples(st.integers(0, 8), grad).map(list), max_size=2)})


def simulate(case, B, D0, H0, flips=(), periodic=True, order=None, pert=None):
    """bodies B (list), each with an offset D0 from its place in the base scene; returns per step states"""
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Matrix3, Vector3

    def M(a):
        return Matrix3(*[float(x) for x in np.asarray(a).flatten()])
    n = len(B)
    orig = np.array(case['orig'])
    pos = [orig + np.array(b['site'], float) + np.array(b['j']) + D0[k] + (pert[k][0] if pert is not None else 0) for k, b in enumerate(B)]
    ids = laws.build(case['law'], case['p'], B, case['dt'], damping=case['damping'], verlet=case['verlet'], pos=pos)
    O = w.Omega()
    if pert is not None:
        for k in range(n):
            s = O.bodies[ids[k]].state
            s.vel = s.vel + Vector3(*pert[k][1])
            s.angVel = s.angVel + Vector3(*pert[k][2])
    if periodic:
        O.periodic = True
        O.cell.hSize = M(H0)
    grads = dict((a, b) for a, b in case['grads'])
    out = []
    D = np.array(D0, float)
    for s in range(case['steps']):
        if s in grads and periodic:
            O.cell.velGrad = M(grads[s])
        for at, (i, j), sg in flips:
            if at == s:
                F = np.zeros((3, 3))
                F[i, j] = sg
                H = np.array([[O.cell.hSize[a, b] for b in range(3)] for a in range(3)])
                if spans(H @ (np.eye(3) + F), case, B):
                    utils.flipCell(M(F))
        O.step()
        S = laws.states(ids)
        L = np.array([[O.cell.velGrad[a, b] for b in range(3)] for a in range(3)]) if periodic else np.zeros((3, 3))
        S['x'] = S['x'] - (D + case['dt'] * D @ L.T)
        S['v'] = S['v'] - D @ L.T
        D = D + case['dt'] * D @ L.T
        S['H'] = np.array([[O.cell.hSize[a, b] for b in range(3)] for a in range(3)]) if periodic else None
        S['L'] = L  # between steps the cell lags behind the bodies by one increment of the deformation: the stress is compared when the cell does not deform
        S['c'] = sorted((i.id1, i.id2) for i in O.interactions)
        if periodic:
            S['sig'] = np.array([[m[a, b] for b in range(3)] for m in [utils.getStress()] for a in range(3)])
        if not all(np.all(np.isfinite(S[k])) for k in 'xvwft'):
            raise Reject
        if np.abs(S['v']).max() > 300 or np.abs(S['w']).max() > 3e3 or np.abs(S['f']).max() > 1e12:
            raise Reject('unstable')   # the time step is too large for this contact: no bounded motion to compare
        if periodic and not spans(S['H'], case, B):
            break
        out.append(S)
    return out


def spans(H, case, B):
    """the documented limit: boxes of bodies smaller than half the period; and the shortest vector of the lattice longer than twice the range, so that a pair touches at one image only"""
    import numpy as np
    if np.linalg.det(H) < 1:
        return False
    size = np.linalg.norm(H, axis=0)
    un = np.linalg.inv(H / size)
    rows = np.linalg.norm(un, axis=1)
    R = max(b['r'] for b in B) * laws.LAWS[case['law']](laws.W(), case['p']).get('factor', 1.)
    half = R * rows ** 2 + case['verlet'] * rows
    heights = 1 / np.linalg.norm(np.linalg.inv(H), axis=1)
    return bool(np.all(2 * half < .45 * size) and np.all(heights > 4.1 * R + 2 * case['verlet']))


def run(case):
    import numpy as np
    law, T = case['law'], case['T']
    B = laws.prepare(law, case['bodies'])
    if B is None:
        raise Reject
    n = len(B)
    case = dict(case)
    if law in NILPOTENT:
        case['grads'] = [[s, g if np.abs(np.linalg.matrix_power(np.array(g).reshape(3, 3), 2)).max() == 0 else [0., g[1], 0, 0, 0, 0, 0, 0, 0]] for s, g in case['grads']][:1]
    if T['k'] == 'free':
        case['grads'] = []
        case['size'] = [max(6., s) for s in case['size']]
    if any(np.any(np.array(g)) for _, g in case['grads']):
        case['damping'] = 0.   # the fluctuating velocity it opposes is known to first order in the time step only
    f = laws.LAWS[law](laws.W(), case['p']).get('factor', 1.)
    H0 = (np.eye(3) + np.array(case['skew'], float).reshape(3, 3) / 16) @ np.diag([s if f == 1 else s * 1.25 for s in case['size']])
    if not spans(H0, case, B):
        H0 = np.diag([s if f == 1 else s * 1.25 for s in case['size']])
        if not spans(H0, case, B):
            H0 = np.eye(3) * 6
    Z = np.zeros((n, 3))
    D, rep, Hb, flips, per = Z, list(range(n)), H0, (), True
    if T['k'] == 'image':
        D = np.array([H0 @ np.array(T['n'][k]) for k in range(n)])
    elif T['k'] == 'trans':
        D = Z + np.array(T['t'])
    elif T['k'] == 'super':
        m = T['m']
        D = np.array([H0[:, T['axis']] * j for j in range(m) for k in range(n)])
        rep = [k for j in range(m) for k in range(n)]
        Hb = H0.copy()
        Hb[:, T['axis']] *= m
    elif T['k'] == 'flip':
        flips = T['at']
    else:
        per = False
    a = simulate(case, B, Z, H0)
    b = simulate(case, [B[k] for k in rep], D, Hb, flips, per)
    hot = 0
    flipped = False

    def sensitivity(upto):
        runs = []
        for seed in range(4):
            rng = np.random.default_rng(seed // 2)
            pert = (1 if seed % 2 else -1) * rng.normal(size=(n, 3, 3)) * 1e-11
            try:
                r = simulate(dict(case, steps=upto), B, Z, H0, pert=pert)
            except Reject:
                return None
            if len(r) < upto:
                return None
            runs.append(r)
        return runs
    for s in range(min(len(a), len(b))):
        x, y = a[s], b[s]
        g = 1e-9 * (s + 1) ** 2
        if law in ('l3', 'l6'):
            g += 1. * (s + 1) * (2 * case['dt'] * max(np.abs(q[k]).max() for q in a[:s + 1] for k in 'vw')) ** 2
        fs = np.abs(x['f']).max() + 1
        vs = np.abs(x['v']).max() + np.abs(x['w']).max() + np.abs(D).max() + 1
        ts = np.abs(x['t']).max() + fs
        stop = False
        items = [('position', 'x', 10. + np.abs(D).max()), ('velocity', 'v', vs), ('angular velocity', 'w', vs), ('force', 'f', fs), ('torque', 't', ts)]
        for what, key, sc in items + ([('stress', 'sig', fs / 10)] if per and law != 'bubble' and not np.any(x['L']) and not np.any(y['L']) else []):
            u, v = (x[key], y[key]) if key == 'sig' else (x[key][rep], y[key])
            tol = sc * g * (1e3 if key in ('f', 't', 'sig') else 1)
            d = np.abs(u - v).max()
            if d > tol:
                r = sensitivity(s + 1)
                if r is None or any(q[k]['c'] != a[k]['c'] for q in r for k in range(s + 1)):
                    stop = True
                    break
                tol += 1e4 * max(np.abs(q[s][key] - x[key]).max() for q in r)
            check(d <= tol, '%s with %s, step %d: %s differs by %g (scale %g): %s instead of %s', law, T['k'], s, what, d, sc, v.tolist(), u.tolist())
        if stop:
            break
        if np.abs(x['f']).max() > 1e-9 and x['c']:
            hot += 1
        if T['k'] == 'flip' and not np.allclose(x['H'], y['H']):
            flipped = True
    ident = T['k'] in ('image', 'trans') and not np.any(D) or T['k'] == 'flip' and not flipped
    grad = any(np.any(np.array(g)) and s0 < len(a) for s0, g in case['grads'])
    return {'nt': hot >= 2 and not ident, 'labels': [law + ':' + T['k'] + (':grad' if grad else '')] if hot >= 2 and not ident else []}
