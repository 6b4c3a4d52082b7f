"""Physics does not depend on the frame of reference, on the order of bodies, nor (for spheres) on the initial orientation."""
from ylib import check, fail, Reject
import laws, math

RULE = 'a case is non-trivial when a contact carried force in two or more steps and the transformation is not the identity'
QUICK, THOROUGH = 1500, 20000
ASSUMPTIONS = ['spheres; no integrator damping (its component-wise rule depends on the axes by design) except for axis permutations; runs that come near a discontinuity (creation or breakage of a contact at a different step) are compared up to that step']


def rotation(k, a):
    import numpy as np
    k = np.array(k, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-12, 12).map(lambda x: x / 4)
    kinds = st.one_of(
        st.fixed_dictionaries({'k': st.just('rot'), 'axis': st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.integers(1, 3)).map(list), 'a': st.integers(1, 31).map(lambda x: x / 5)}),
        st.fixed_dictionaries({'k': st.just('trans'), 't': st.tuples(c, c, c).map(list)}),
        st.fixed_dictionaries({'k': st.just('boost'), 'V': st.tuples(c, c, c).map(list)}),
        st.fixed_dictionaries({'k': st.just('mirror'), 'axis': st.integers(0, 2)}),
        st.fixed_dictionaries({'k': st.just('perm'), 'p': st.permutations([0, 1, 2]), 's': st.tuples(*[st.sampled_from([-1, 1])] * 3).map(list)}),
        st.fixed_dictionaries({'k': st.just('order'), 'seed': st.permutations(list(range(5)))}),
        st.fixed_dictionaries({'k': st.just('gap'), 'n': st.integers(1, 5)}))
    return st.fixed_dictionaries({'law': st.sampled_from(['cundall', 'mindlin'] + sorted(laws.LAWS)), 'p': laws.params(), 'bodies': laws.packing(2, 5), 'dt': st.sampled_from([1e-3, 4e-3, 2e-4]),
                                  'steps': st.integers(2, 30), 'verlet': st.sampled_from([0., .05]), 'T': kinds, 'damping': st.sampled_from([0., 0., .3]),
                                  'g': st.sampled_from([[0, 0, 0], [0, 0, -10], [3, -4, 5]])})


def simulate(case, B, A=None, t=(0, 0, 0), V=(0, 0, 0), order=None, gap=0):
    import numpy as np
    from yade import wrapper as w
    g = np.array(case['g'], float)
    if A is not None:
        g = np.asarray(A) @ g
    kw = {}
    if case['T']['k'] in ('boost', 'rot', 'mirror') and case['damping']:
        damping = 0.
    else:
        damping = case['damping']
    ids = laws.build(case['law'], case['p'], B, case['dt'], A=A, t=t, V=V, order=order, gravity=g, damping=damping, verlet=case['verlet'], gap=gap)
    O = w.Omega()
    inv = {v: k for k, v in ids.items()}
    out = []
    for s in range(case['steps']):
        O.step()
        S = laws.states(ids)
        S['c'] = sorted((min(inv[i.id1], inv[i.id2]), max(inv[i.id1], inv[i.id2])) for i in O.interactions)
        if not all(np.all(np.isfinite(S[k])) for k in 'xvwft'):
            raise Reject
        out.append(S)
    return out


def sensitivity(case, B, upto):
    """how much the original run itself changes under perturbations at the level of rounding: per step, per quantity"""
    import numpy as np
    runs = []
    for seed in range(4):
        rng = np.random.default_rng(seed // 2)
        sg = 1 if seed % 2 else -1
        P = []
        for b in B:
            e = sg * rng.normal(size=(3, 3)) * 1e-12
            P.append(dict(b, j=list(np.array(b['j']) + e[0]), v=list(np.array(b['v'], float) + e[1]), w=list(np.array(b['w'], float) + e[2])))
        try:
            runs.append(simulate(dict(case, steps=upto), P))
        except Reject:
            return None
    return runs


def run(case):
    import numpy as np
    law, T = case['law'], case['T']
    B = laws.prepare(law, case['bodies'])
    if B is None:
        raise Reject
    n = len(B)
    A, t, V, order, gap = np.eye(3), np.zeros(3), np.zeros(3), None, 0
    if T['k'] == 'rot':
        A = rotation(T['axis'], T['a'])
    elif T['k'] == 'trans':
        t = np.array(T['t'])
    elif T['k'] == 'boost':
        V = np.array(T['V'])
    elif T['k'] == 'mirror':
        A[T['axis'], T['axis']] = -1
    elif T['k'] == 'perm':
        A = np.zeros((3, 3))
        for i in range(3):
            A[i, T['p'][i]] = T['s'][i]
    elif T['k'] == 'order':
        order = [k for k in T['seed'] if k < n]
    else:
        gap = T['n']
    det = round(np.linalg.det(A))
    a = simulate(case, B)
    b = simulate(case, B, A, t, V, order, gap)
    hot = 0
    for s in range(case['steps']):
        x, y = a[s], b[s]
        if x['c'] != y['c']:
            # creation or loss of a contact may be decided differently only at a tie
            r = sensitivity(case, B, s + 1)
            check(r is None or any(q[k]['c'] != a[k]['c'] or np.abs(q[k]['x'] - a[k]['x']).max() > 1e-9 for q in r for k in range(s + 1)),
                  '%s under %s, step %d: contacts %s instead of %s', law, T['k'], s, y['c'], x['c'])
            break
        off = t + V * case['dt'] * (s + 1)
        fs, vs = np.abs(x['f']).max() + 1, np.abs(x['v']).max() + np.abs(x['w']).max() + np.abs(V).max() + 1
        ts = np.abs(x['t']).max() + fs
        g = SENS * (s + 1) ** 2
        if law in ('l3', 'l6'):  # local axes are kept orthonormal to second order in the rotation per step only
            g += 1. * (s + 1) * (2 * case['dt'] * max(np.abs(q[k]).max() for q in a[:s + 1] for k in 'vw')) ** 2
        stop = False
        for what, u, v, sc in (('position', x['x'] @ A.T + off, y['x'], 10.), ('velocity', x['v'] @ A.T + V, y['v'], vs), ('angular velocity', det * x['w'] @ A.T, y['w'], vs),
                               ('force', x['f'] @ A.T, y['f'], fs), ('torque', det * x['t'] @ A.T, y['t'], ts)):
            tol = sc * g * (1e3 if what in ('force', 'torque') else 1)
            d = np.abs(u - v).max()
            if d > tol:  # chaotic or at a discontinuity?
                r = sensitivity(case, B, s + 1)
                key = {'position': 'x', 'velocity': 'v', 'angular velocity': 'w', 'force': 'f', 'torque': 't'}[what]
                if r is None or any(q[k]['c'] != a[k]['c'] for q in r for k in range(s + 1)):
                    stop = True
                    break
                tol += 1e4 * max(np.abs(q[s][key] - x[key]).max() for q in r)
            check(d <= tol, '%s under %s, step %d: %s differs by %g (scale %g): %s instead of %s', law, T['k'], s, what, d, sc, v.tolist(), u.tolist())
        if stop:
            break
        if np.abs(x['f'] - np.array([0, 0, 0])).max() > 1e-9 and x['c']:
            hot += 1
    ident = T['k'] == 'order' and order == sorted(order) or T['k'] in ('trans', 'boost') and not np.any(t) and not np.any(V) or T['k'] == 'perm' and np.array_equal(A, np.eye(3))
    return {'nt': hot >= 2 and not ident, 'labels': [law + ':' + T['k']] if hot >= 2 else []}


SENS = 1e-10
