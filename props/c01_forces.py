"""Force container: what a body receives is the sum of everything added since the last reset plus its permanent load."""
from ylib import check, fail

RULE = ('a case is non-trivial when at least one value other than zero was read back after at least three state-changing operations '
        '(additions, permanent loads, resets, new bodies, steps in which several threads add gravity)')
QUICK, THOROUGH = 400, 12000
ENV = {'OMP_NUM_THREADS': '3'}
CASE_TIMEOUT = 60
ASSUMPTIONS = ['values are small integers, so sums are exact and independent of summation order']


def strategy(tier):
    from hypothesis import strategies as st
    v = st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9)).map(list)
    frac = st.one_of(st.integers(0, 9999), st.sampled_from([0, 9999]))
    op = st.one_of(
        st.tuples(st.sampled_from(['F', 'T', 'M', 'R']), frac, v),
        st.tuples(st.sampled_from(['PF', 'PT']), frac, v),
        st.tuples(st.just('reset'), st.booleans()),
        st.tuples(st.just('read'), frac, st.booleans()),
        st.tuples(st.just('readall'), st.booleans()),
        st.tuples(st.just('new'), st.one_of(st.integers(1, 4), st.sampled_from([40, 100, 101, 150, 700]))),
        st.tuples(st.just('step'), st.integers(0, 3), v),
        st.tuples(st.just('perm'), frac),
    ).map(list)
    n0 = st.one_of(st.integers(1, 5), st.integers(90, 210), st.integers(1500, 2500))
    return st.fixed_dictionaries({'n': n0, 'ops': st.lists(op, min_size=3, max_size=40)})


def run(case):
    import yade
    from yade.wrapper import Omega, Body, Sphere, ForceResetter, GravityEngine
    from minieigen import Vector3
    O = Omega()
    O.reset()
    n = 0
    mass = []

    def add(k):
        nonlocal n
        for _ in range(k):
            b = Body()
            b.shape = Sphere(radius=1)
            b.state.mass = 1 + n % 7
            mass.append(1 + n % 7)
            assert O.bodies.append(b) == n
            n += 1
    add(case['n'])
    Z = (0, 0, 0)
    cur = {k: {} for k in 'FTMR'}
    perm = {'F': {}, 'T': {}}
    fo = O.forces

    def plus(a, b):
        return tuple(x + y for x, y in zip(a, b))

    def exp(kind, i):
        r = cur[kind].get(i, Z)
        if kind in perm:
            r = plus(r, perm[kind].get(i, Z))
        return r
    nonzero = False
    labels = set()
    changes = 0

    def read(i, sync, where):
        nonlocal nonzero
        got = {'F': fo.f(i, sync), 'T': fo.t(i, sync), 'M': fo.move(i), 'R': fo.rot(i)}
        for k, g in got.items():
            e = exp(k, i)
            if e != Z:
                nonzero = True
            check(tuple(g) == e, '%s: %s of body %d (of %d) is %s, expected the sum %s (sync=%s)', where, k, i, n, tuple(g), e, sync)

    for j, op in enumerate(case['ops']):
        k = op[0]
        w = 'operation %d' % j
        if k in ('F', 'T', 'M', 'R'):
            i = op[1] * n // 10000
            {'F': fo.addF, 'T': fo.addT, 'M': fo.addMove, 'R': fo.addRot}[k](i, Vector3(*op[2]))
            cur[k][i] = plus(cur[k].get(i, Z), op[2])
            changes += 1
        elif k in ('PF', 'PT'):
            i = op[1] * n // 10000
            (fo.setPermF if k == 'PF' else fo.setPermT)(i, Vector3(*op[2]))
            perm[k[1]][i] = tuple(op[2])
            labels.add('permanent')
            changes += 1
        elif k == 'reset':
            fo.reset(op[1])
            for d in cur.values():
                d.clear()
            if op[1]:
                for d in perm.values():
                    d.clear()
            changes += 1
        elif k == 'new':
            add(op[1])
            changes += 1
        elif k == 'read':
            read(op[1] * n // 10000, op[2], w)
        elif k == 'readall':
            ids = range(n) if n <= 300 else sorted(set(list(range(0, n, 7)) + list(cur['F']) + list(perm['F']) + list(perm['T']) + list(cur['T'])))
            for i in ids:
                read(i, op[1], w)
        elif k == 'perm':
            i = op[1] * n // 10000
            fo.f(i, True)
            check(tuple(fo.permF(i)) == perm['F'].get(i, Z), '%s: permanent force of body %d is %s, was set to %s', w, i, tuple(fo.permF(i)), perm['F'].get(i, Z))
            check(tuple(fo.permT(i)) == perm['T'].get(i, Z), '%s: permanent torque of body %d is %s, was set to %s', w, i, tuple(fo.permT(i)), perm['T'].get(i, Z))
        elif k == 'step':
            eng = []
            if op[1] & 1:
                eng.append(ForceResetter())
            if op[1] & 2:
                eng.append(GravityEngine(gravity=Vector3(*op[2]), warnOnce=False))
            O.engines = eng
            O.dt = 1e-3
            O.step()
            if op[1] & 1:
                for d in cur.values():
                    d.clear()
            if op[1] & 2:
                labels.add('threads')
                for i in range(n):
                    cur['F'][i] = plus(cur['F'].get(i, Z), tuple(mass[i] * x for x in op[2]))
            changes += 1
    for i in (range(n) if n <= 300 else sorted(set(list(range(0, n, 5)) + [n - 1] + list(perm['F']) + list(perm['T'])))):
        read(i, True, 'end')
        check(tuple(fo.permF(i)) == perm['F'].get(i, Z), 'end: permanent force of body %d is %s, was set to %s', i, tuple(fo.permF(i)), perm['F'].get(i, Z))
        check(tuple(fo.permT(i)) == perm['T'].get(i, Z), 'end: permanent torque of body %d is %s, was set to %s', i, tuple(fo.permT(i)), perm['T'].get(i, Z))
    labels.add('n<=5' if n <= 5 else 'n<=300' if n <= 300 else 'large')
    return {'nt': nonzero and changes >= 3, 'labels': sorted(labels)}
