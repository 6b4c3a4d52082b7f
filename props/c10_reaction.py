"""Contact laws: contacts exert equal and opposite actions (Newton's third law, forces and moments) and obey their documented limits, for every contact model."""
from ylib import check, fail, Reject
import laws, math

RULE = 'a case is non-trivial when at least one contact carried a nonzero force in two or more steps'
QUICK, THOROUGH = 1200, 25000
ASSUMPTIONS = ['spheres only; no external loads, no damping by the integrator; lubrication, capillary, cohesive, visco-elastic, damage and frictional models with fixed families of parameters']
FRICTION = {'cundall': 'all', 'viscofrict': 'all', 'frictvisco': 'never', 'hls': 'all', 'l3': 'noslip', 'mindlin': 'plain', 'deres': None, 'viscel': None, 'luding': None}


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'law': st.sampled_from(['cundall', 'cundall', 'cundall'] + sorted(laws.LAWS)), 'p': laws.params(), 'bodies': laws.packing(2, 5), 'dt': st.sampled_from([1e-3, 4e-3, 2e-4]),
                                  'steps': st.integers(2, 25), 'verlet': st.sampled_from([0., .05]), 'E': st.booleans()})


def run(case):
    import numpy as np
    from yade import wrapper as w
    law, p, B = case['law'], case['p'], case['bodies']
    B = laws.prepare(law, B)
    if B is None:
        raise Reject
    ids = laws.build(law, p, B, case['dt'], verlet=case['verlet'], trackE=case['E'])
    O = w.Omega()
    L0 = P0 = None
    hot = 0
    ref = {}
    m = np.array([O.bodies[ids[k]].state.mass for k in range(len(B))])
    I = np.array([O.bodies[ids[k]].state.inertia[0] for k in range(len(B))])
    for s in range(case['steps']):
        a = laws.states(ids)
        O.step()
        b = laws.states(ids)
        F, T, x = b['f'], b['t'], a['x']
        if not (np.all(np.isfinite(F)) and np.all(np.isfinite(T))):
            fail('step %d: force or torque is not finite', s)
        fs = np.abs(F).max() + 1e-30
        tot, mom = F.sum(0), (T + np.cross(x, F)).sum(0)
        sc = 1e-9 * (fs * 3 + np.abs(T).max()) + 1e-13 * sum(abs(i.phys.normalForce.norm()) for i in O.interactions if hasattr(i.phys, 'normalForce'))
        check(np.abs(tot).max() <= sc, '%s step %d: forces of contacts do not cancel: sum %s, largest force %g', law, s, tot, fs)
        check(np.abs(mom).max() <= 3 * sc, '%s step %d: moments of contacts do not cancel: sum %s, largest force %g', law, s, mom, fs)
        # momenta are conserved by the motion that follows
        P = (m[:, None] * b['v']).sum(0)
        L = (np.cross(b['x'], m[:, None] * b['v']) + I[:, None] * b['w']).sum(0)
        if P0 is None:
            P0, L0 = (m[:, None] * a['v']).sum(0), (np.cross(a['x'], m[:, None] * a['v']) + I[:, None] * a['w']).sum(0)
        scale = (m[:, None] * np.abs(b['v'])).sum() + (I[:, None] * np.abs(b['w'])).sum() + fs * case['dt']
        check(np.abs(P - P0).max() <= 1e-9 * scale + 1e-12, '%s step %d: momentum changed from %s to %s', law, s, P0, P)
        check(np.abs(L - L0).max() <= 1e-8 * scale + 1e-12, '%s step %d: angular momentum changed from %s to %s', law, s, L0, L)
        if fs > 1e-12 and O.interactions.countReal():
            hot += 1
        for i in O.interactions:
            if law in FRICTION and FRICTION[law] and hasattr(i.phys, 'tangensOfFrictionAngle') and not (FRICTION[law] == 'noslip' and p['flag']) \
                    and not (FRICTION[law] == 'never' and p['never']) and not (FRICTION[law] == 'plain' and p['opt'] % 5 in (1, 2, 4)):
                ft, fn = i.phys.shearForce.norm(), i.phys.normalForce.norm()
                if law == 'l3':
                    ft, fn = math.hypot(i.geom.F[1], i.geom.F[2]), abs(i.geom.F[0])  # in local axes: trsf is only approximately orthonormal
                check(ft <= fn * i.phys.tangensOfFrictionAngle * (1 + 1e-9) + 1e-9, '%s step %d: shear force %g exceeds friction limit %g', law, s, ft, fn * i.phys.tangensOfFrictionAngle)
        if law == 'cundall':
            reference(O, ids, B, a, case, ref, s, p)
        elif law in ('mindlin', 'deres') and (law == 'deres' or p['opt'] % 5 == 0):
            for i in O.interactions:
                k1, k2 = [k for k in ids if ids[k] == i.id1][0], [k for k in ids if ids[k] == i.id2][0]
                A, C = B[k1], B[k2]
                m1, m2 = laws.friction(A['m'], p), laws.friction(C['m'], p)
                Es = 1 / ((1 - m1['poisson'] ** 2) / m1['young'] + (1 - m2['poisson'] ** 2) / m2['young'])
                Rs = A['r'] * C['r'] / (A['r'] + C['r'])
                d = np.linalg.norm(a['x'][k2] - a['x'][k1])
                un = max(0, A['r'] + C['r'] - d)
                want = 4 / 3 * Es * math.sqrt(Rs) * un ** 1.5
                got = i.phys.normalForce.norm()
                check(abs(got - want) <= 1e-7 * (want + 1), '%s step %d: Hertz force %g, expected %g', law, s, got, want)
    return {'nt': hot >= 2, 'labels': [law] if hot >= 2 else []}


def reference(O, ids, B, a, case, ref, s, p):
    """linear elastic-frictional contact, re-computed in numpy"""
    import numpy as np
    seen = set()
    dt = case['dt']
    expF = np.zeros((len(B), 3))
    expT = np.zeros((len(B), 3))
    inv = {v: k for k, v in ids.items()}
    for i in O.interactions:
        k1, k2 = inv[i.id1], inv[i.id2]
        key = (k1, k2)
        seen.add(key)
        A, C = B[k1], B[k2]
        m1, m2 = laws.friction(A['m'], p), laws.friction(C['m'], p)
        e1, e2 = m1['young'] * A['r'], m2['young'] * C['r']
        kn = 2 * e1 * e2 / (e1 + e2)
        s1, s2 = e1 * m1['poisson'], e2 * m2['poisson']
        ks = 2 * s1 * s2 / (s1 + s2)
        tan = math.tan(min(m1['frictionAngle'], m2['frictionAngle']))
        d = a['x'][k2] - a['x'][k1]
        dist = np.linalg.norm(d)
        n = d / dist
        un = A['r'] + C['r'] - dist
        Fn = kn * max(un, 0) * n
        w1, w2 = a['w'][k1], a['w'][k2]
        if key in ref:
            Fs, n0 = ref[key]
            Fs = Fs - np.cross(Fs, np.cross(n0, n))
            Fs = Fs - np.cross(Fs, dt * .5 * (n0 @ (w1 + w2)) * n0)
        else:
            Fs = np.zeros(3)
        if un < 0:
            Fs = np.zeros(3)
        if p['ratch']:
            rv = (a['v'][k2] - a['v'][k1]) * (A['r'] + C['r']) / dist - np.cross(w2, C['r'] * n) - np.cross(w1, A['r'] * n)
        else:
            cp = a['x'][k1] + (A['r'] - .5 * un) * n
            rv = a['v'][k2] + np.cross(w2, cp - a['x'][k2]) - a['v'][k1] - np.cross(w1, cp - a['x'][k1])
        rv = rv - n * (n @ rv)
        Fs = Fs - ks * dt * rv
        lim = np.linalg.norm(Fn) * tan
        if np.linalg.norm(Fs) > lim:
            Fs = Fs * (lim / np.linalg.norm(Fs))
        tol = 1e-8 * (np.linalg.norm(Fn) + kn * 1e-6)
        got = np.array(i.phys.normalForce), np.array(i.phys.shearForce)
        check(np.abs(got[0] - Fn).max() <= tol, 'step %d: normal force of %s is %s, expected %s', s, key, got[0], Fn)
        check(np.abs(got[1] - Fs).max() <= tol * 10, 'step %d: shear force of %s is %s, expected %s', s, key, got[1], Fs)
        ref[key] = (got[1], n)
        f = -Fn - got[1]
        expF[k1] += f
        expF[k2] -= f
        cp = a['x'][k1] + (A['r'] - .5 * un) * n
        expT[k1] += np.cross(cp - a['x'][k1], f)
        expT[k2] -= np.cross(cp - a['x'][k2], f)
    for key in list(ref):
        if key not in seen:
            del ref[key]
    F = np.array([O.forces.f(ids[k]) for k in range(len(B))], float)
    T = np.array([O.forces.t(ids[k]) for k in range(len(B))], float)
    sc = 1e-7 * (np.abs(expF).max() + 1)
    check(np.abs(F - expF).max() <= sc, 'step %d: forces on bodies %s, expected %s', s, F.tolist(), expF.tolist())
    check(np.abs(T - expT).max() <= sc, 'step %d: torques on bodies %s, expected %s', s, T.tolist(), expT.tolist())
