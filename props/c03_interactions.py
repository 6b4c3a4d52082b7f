"""Interaction container: one consistent set of contacts, whatever bodies and contacts were added, moved and erased before."""
from ylib import check, fail

RULE = 'a case is non-trivial when contacts existed after some step and a body or a contact was erased (or an erased slot refilled) at some point'
QUICK, THOROUGH = 2600, 20000
ENV = {'OMP_NUM_THREADS': '3'}
ASSUMPTIONS = ['spheres on an integer grid, radius 0.8: distances never come near the touching distance']


def strategy(tier):
    from hypothesis import strategies as st
    i = st.integers(0, 30)
    p = st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 1)).map(list)
    op = st.one_of(
        st.tuples(st.just('add'), p),
        st.tuples(st.just('erase'), i),
        st.tuples(st.just('insert'), i, p),
        st.tuples(st.just('move'), i, p),
        st.tuples(st.just('step'), st.integers(1, 2)),
        st.tuples(st.just('step'), st.integers(1, 2)),
        st.tuples(st.just('create'), i, i),
        st.tuples(st.just('drop'), i, i),
        st.tuples(st.just('dropreal'), i),
        st.tuples(st.just('clear')),
        st.tuples(st.just('nonreal')),
    ).map(list)
    return st.fixed_dictionaries({'pos': st.lists(p, min_size=2, max_size=9), 'threads': st.sampled_from([1, 1, 3]),
                                  'ops': st.lists(op, min_size=3, max_size=25)})


def run(case):
    import yade, ctypes
    from yade.wrapper import (Omega, ForceResetter, InsertionSortCollider, Bo1_Sphere_Aabb, InteractionLoop, Ig2_Sphere_Sphere_ScGeom,
                              Ip2_FrictMat_FrictMat_FrictPhys, Law2_ScGeom_FrictPhys_CundallStrack)
    from yade import utils
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(case['threads'])
    O = Omega()
    O.reset()
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=0),
                 InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])]
    O.dt = 1e-6
    pos = []

    def sph(p):
        return utils.sphere([float(x) for x in p], .8)

    def touch(a, b):
        return sum((x - y) ** 2 for x, y in zip(a, b)) < 2.56

    def overlapping():
        ids = [k for k, p in enumerate(pos) if p]
        return {(a, b) for a in ids for b in ids if a < b and touch(pos[a], pos[b])}
    for p in case['pos']:
        O.bodies.append(sph(p))
        pos.append(p)
    real = set()          # pairs expected to be real
    known = None
    flags = set()

    def key(I):
        return (min(I.id1, I.id2), max(I.id1, I.id2))

    def verify(w):
        it = list(O.interactions)
        got = [key(I) for I in it]
        check(len(set(got)) == len(got), '%s: a pair is listed twice: %s', w, sorted(got))
        check(set(got) == real, '%s: real interactions %s, expected %s', w, sorted(got), sorted(real))
        check(O.interactions.countReal() == len(real), '%s: countReal is %d, expected %d', w, O.interactions.countReal(), len(real))
        al = O.interactions.all()
        alk = [key(I) for I in al]
        check(len(set(alk)) == len(alk), '%s: a pair is stored twice: %s', w, sorted(alk))
        check(len(O.interactions) == len(al), '%s: length %d, but %d are listed', w, len(O.interactions), len(al))
        check(sorted(key(I) for I in O.interactions.all(True)) == sorted(real), '%s: all(onlyReal) disagrees', w)
        ids = [k for k, p in enumerate(pos) if p]
        for n in range(len(it)):
            check(key(O.interactions.nth(n)) in real, '%s: nth(%d)', w, n)
        for a in range(len(pos)):
            mine = sorted(p for p in real if a in p)
            if pos[a]:
                intrs = sorted(key(I) for I in O.bodies[a].intrs())
                check(intrs == mine, '%s: body %d lists contacts %s, expected %s', w, a, intrs, mine)
            check(sorted(key(I) for I in O.interactions.withBody(a)) == mine, '%s: withBody(%d) disagrees with %s', w, a, mine)
            check(sorted(key(I) for I in O.interactions.withBodyAll(a)) == sorted(p for p in alk if a in p), '%s: withBodyAll(%d) disagrees', w, a)
            for b in range(len(pos)):
                if a == b:
                    continue
                if not (pos[a] and pos[b]):
                    check(not O.interactions.has(a, b) or (min(a, b), max(a, b)) in alk, '%s: has(%d,%d) with an erased body', w, a, b)
                    continue
                stored = (min(a, b), max(a, b)) in alk
                check(bool(O.interactions.has(a, b)) == stored, '%s: has(%d,%d) is %s, stored: %s', w, a, b, O.interactions.has(a, b), stored)
                try:
                    I = O.interactions[a, b]
                except IndexError:
                    I = None
                check((I is not None) == stored, '%s: lookup of (%d,%d) gives %s, stored: %s', w, a, b, I, stored)
                if I is not None:
                    check(key(I) == (min(a, b), max(a, b)), '%s: lookup of (%d,%d) gives %s', w, a, b, key(I))
                    check(bool(I.isReal) == ((min(a, b), max(a, b)) in real), '%s: (%d,%d) real: %s', w, a, b, I.isReal)

    def live(i):
        l = [k for k, p in enumerate(pos) if p]
        return l[i % len(l)] if l else None
    for j, op in enumerate(case['ops']):
        w = 'after operation %d %s' % (j, op)
        k = op[0]
        if k == 'add':
            pos.append(op[1])
            O.bodies.append(sph(op[1]))
        elif k == 'erase':
            i = live(op[1])
            if i is None or len([p for p in pos if p]) <= 1:
                continue
            if any(i in p for p in real):
                flags.add('erased-in-contact')
            O.bodies.erase(i)
            pos[i] = None
            real = {p for p in real if i not in p}
            flags.add('erase')
        elif k == 'insert':
            free = [n for n, p in enumerate(pos) if not p]
            if not free:
                continue
            i = free[op[1] % len(free)]
            if any(i in key(I) for I in O.interactions.all()):
                # the erased body's contacts are removed by the next step; refill the slot after that
                O.step()
                real = overlapping()
            O.bodies.insertAtId(sph(op[2]), i)
            pos[i] = op[2]
            flags.add('refill')
        elif k == 'move':
            i = live(op[1])
            if i is None:
                continue
            O.bodies[i].state.pos = [float(x) for x in op[2]]
            pos[i] = op[2]
        elif k == 'step':
            for _ in range(op[1]):
                O.step()
            real = overlapping()
            if real:
                flags.add('contacts')
            for I in O.interactions.all():
                check(pos[I.id1] and pos[I.id2], '%s: contact %d+%d with an erased body is still stored', w, I.id1, I.id2)
        elif k == 'create':
            a, b = live(op[1]), live(op[2])
            if a is None or b is None or a == b:
                continue
            pair = (min(a, b), max(a, b))
            if O.interactions.has(a, b):
                continue
            utils.createInteraction(a, b)
            real.add(pair)
            flags.add('create')
        elif k == 'drop':
            a, b = live(op[1]), live(op[2])
            if a is None or a == b:
                continue
            O.interactions.erase(a, b)
            real.discard((min(a, b), max(a, b)))
            flags.add('erase')
        elif k == 'dropreal':
            if not real:
                continue
            a, b = sorted(real)[op[1] % len(real)]
            O.interactions.erase(b, a)
            real.discard((a, b))
            flags.add('erase')
        elif k == 'clear':
            O.interactions.clear()
            real = set()
            check(len(O.interactions) == 0, '%s: not empty', w)
        elif k == 'nonreal':
            O.interactions.eraseNonReal()
            check(len(O.interactions) == len(real), '%s: %d stored, expected only the %d real ones', w, len(O.interactions), len(real))
            flags.add('nonreal')
        verify(w)
    return {'nt': 'contacts' in flags and ('erase' in flags or 'refill' in flags), 'labels': sorted(flags)}
