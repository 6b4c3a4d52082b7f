"""Body container: ids are stable, erased slots stay empty until filled, clump membership tables agree on both sides."""
from ylib import check, fail

RULE = ('a case is non-trivial when its history erased at least one body and either formed, changed or dissolved a clump or refilled an '
        'erased slot')
QUICK, THOROUGH = 3500, 25000
ASSUMPTIONS = ['bodies are spheres that do not overlap; the members of clumps are spheres']


def strategy(tier):
    from hypothesis import strategies as st
    i = st.integers(0, 60)
    op = st.one_of(
        st.tuples(st.just('append')),
        st.tuples(st.just('appendlist'), st.integers(0, 4)),
        st.tuples(st.just('twice'), i),
        st.tuples(st.just('clumped'), st.integers(1, 4)),
        st.tuples(st.just('clump'), st.lists(i, min_size=1, max_size=4)),
        st.tuples(st.just('erase'), i, st.booleans()),
        st.tuples(st.just('erase'), i, st.booleans()),
        st.tuples(st.just('badid'), st.sampled_from([-1, -2, 0, 1, 2, 50, 100000, 3000000]), st.sampled_from(['erase', 'insert', 'get'])),
        st.tuples(st.just('insert'), i),
        st.tuples(st.just('reuse'), i),
        st.tuples(st.just('addto'), st.lists(i, min_size=1, max_size=3), i),
        st.tuples(st.just('release'), i, i, st.booleans()),
        st.tuples(st.just('step')),
    ).map(list)
    return st.fixed_dictionaries({'n': st.integers(0, 8), 'ops': st.lists(op, min_size=2, max_size=30)})


def run(case):
    import yade, warnings
    from yade.wrapper import Omega, Body
    from yade import utils
    warnings.simplefilter('ignore')
    O = Omega()
    O.reset()
    from yade.wrapper import NewtonIntegrator
    O.engines = [NewtonIntegrator()]
    O.dt = 1e-6
    made = [0]

    def sphere():
        k = made[0]
        made[0] += 1
        return utils.sphere((3. * (k % 7), 3. * (k // 7 % 7), 3. * (k // 49)), .5 + .1 * (k % 5))
    model = []   # per slot: None or dict(kind, clump, obj, iter)
    stat = {'erase': 0, 'clump': 0, 'refill': 0}
    erased = []

    def put(b, slot=None, kind='s', clump=-1):
        d = dict(kind=kind, clump=clump, iter=O.iter, members=set())
        if slot is None:
            model.append(d)
        else:
            model[slot] = d

    def live(kinds='smc'):
        return [k for k, d in enumerate(model) if d and d['kind'] in kinds]

    def pick(i, kinds):
        l = live(kinds)
        return l[i % len(l)] if l else None

    def m_erase(i, flag):
        d = model[i]
        if d['kind'] == 'm':
            c = d['clump']
            model[c]['members'].discard(i)
            if not model[c]['members']:
                model[c] = None
        elif d['kind'] == 'c':
            for k in d['members']:
                if flag:
                    model[k] = None
                else:
                    model[k]['kind'], model[k]['clump'] = 's', -1
        model[i] = None

    def verify(w):
        check(len(O.bodies) == len(model), '%s: container reports %d slots, expected %d', w, len(O.bodies), len(model))
        seen = [b.id for b in O.bodies]
        check(seen == live(), '%s: iteration yields ids %s, existing bodies are %s', w, seen, live())
        for k, d in enumerate(model):
            b = O.bodies[k]
            check((b is None) == (d is None), '%s: slot %d: %s, expected %s', w, k, b, d)
            check((O.bodies[k - len(model)] is None) == (d is None), '%s: slot %d through a negative index', w, k)
            if d is None:
                continue
            check(b.id == k, '%s: body in slot %d says its id is %d', w, k, b.id)
            got = 's' if b.isStandalone else 'c' if b.isClump else 'm' if b.isClumpMember else '?'
            check(got == d['kind'], '%s: body %d is of kind %s, expected %s', w, k, got, d['kind'])
            check((b.isStandalone, b.isClump, b.isClumpMember).count(True) == 1, '%s: body %d has contradictory kind', w, k)
            exp = k if d['kind'] == 'c' else d['clump']
            check(b.clumpId == exp, '%s: body %d belongs to clump %d, expected %d', w, k, b.clumpId, exp)
            check(b.iterBorn == d['iter'], '%s: body %d born at %d, expected %d', w, k, b.iterBorn, d['iter'])
            if d['kind'] == 'c':
                mem = set(int(x) for x in b.shape.members.keys())
                check(mem == d['members'], '%s: clump %d has members %s, expected %s', w, k, sorted(mem), sorted(d['members']))

    for _ in range(case['n']):
        O.bodies.append(sphere())
        put(None)
    verify('start')
    for j, op in enumerate(case['ops']):
        w = 'after operation %d %s' % (j, op)
        k = op[0]
        if k == 'append':
            r = O.bodies.append(sphere())
            check(r == len(model), '%s: append returned %s, expected %d', w, r, len(model))
            put(None)
        elif k == 'appendlist':
            r = list(O.bodies.append([sphere() for _ in range(op[1])]))
            check(r == list(range(len(model), len(model) + op[1])), '%s: append returned %s', w, r)
            for _ in r:
                put(None)
        elif k == 'twice':
            i = pick(op[1], 'smc')
            if i is None:
                continue
            try:
                O.bodies.append(O.bodies[i])
            except IndexError:
                pass
            else:
                fail('%s: a body that is already in the simulation was appended again', w)
        elif k == 'clumped':
            cid, ids = O.bodies.appendClumped([sphere() for _ in range(op[1])])
            ids = list(ids)
            n0 = len(model)
            check(ids == list(range(n0, n0 + op[1])) and cid == n0 + op[1], '%s: clump %s with members %s', w, cid, ids)
            for _ in ids:
                put(None, kind='m', clump=cid)
            put(None, kind='c')
            model[cid]['members'] = set(ids)
            stat['clump'] += 1
        elif k == 'clump':
            ids = []
            for i in op[1]:
                i = pick(i, 'sm')
                if i is not None and i not in ids:
                    ids.append(i)
            left = {}
            for i in ids:
                if model[i]['kind'] == 'm':
                    left.setdefault(model[i]['clump'], set(model[model[i]['clump']]['members'])).discard(i)
            if not ids or any(not v for v in left.values()):
                continue
            cid = O.bodies.clump(ids)
            check(cid == len(model), '%s: clump id %s', w, cid)
            put(None, kind='c')
            model[cid]['members'] = set(ids)
            for c, v in left.items():
                model[c]['members'] = v
            for i in ids:
                model[i]['kind'], model[i]['clump'] = 'm', cid
            stat['clump'] += 1
        elif k == 'erase':
            if not model:
                continue
            i = op[1] % len(model)
            ref = O.bodies[i]
            r = O.bodies.erase(i, op[2])
            check(r == (model[i] is not None), '%s: erase(%d) returned %s', w, i, r)
            if model[i]:
                if model[i]['kind'] != 'c':
                    erased.append(ref)
                    check(ref.id == -1, '%s: an erased body keeps id %d and cannot be added again', w, ref.id)
                m_erase(i, op[2])
                stat['erase'] += 1
        elif k == 'badid':
            n = len(model)
            i = op[1] if op[1] < 0 else n + op[1]
            if op[2] == 'erase':
                check(O.bodies.erase(i, False) is False, '%s: erasing id %d, which does not exist, succeeded', w, i)
            elif op[2] == 'insert':
                check(O.bodies.insertAtId(sphere(), i) == -1, '%s: inserting at id %d, which does not exist, succeeded', w, i)
            elif i >= n:
                try:
                    O.bodies[i]
                except IndexError:
                    pass
                else:
                    fail('%s: reading id %d of %d did not fail', w, i, n)
        elif k == 'insert':
            if not model:
                continue
            i = op[1] % len(model)
            r = O.bodies.insertAtId(sphere(), i)
            if model[i]:
                check(r == -1, '%s: insertion in the occupied slot %d returned %d', w, i, r)
            else:
                check(r == i, '%s: insertion in the empty slot %d returned %d', w, i, r)
                put(None, slot=i)
                stat['refill'] += 1
        elif k == 'reuse':
            if not erased:
                continue
            b = erased.pop(op[1] % len(erased))
            r = O.bodies.append(b)
            check(r == len(model), '%s: append returned %s', w, r)
            put(None)
        elif k == 'addto':
            c = pick(op[2], 'c')
            if c is None:
                continue
            ids, gone, add = [], set(), set()
            for i in op[1]:
                i = pick(i, 'smc')
                if i == c or model[i]['clump'] == c:
                    continue
                o = i if model[i]['kind'] == 'c' else model[i]['clump']
                if i in ids or o in gone:
                    continue
                if o >= 0:
                    gone.add(o)
                    add |= model[o]['members']
                else:
                    add.add(i)
                ids.append(i)
            if not ids:
                continue
            O.bodies.addToClump(ids, c)
            for i in add:
                model[i]['kind'], model[i]['clump'] = 'm', c
            model[c]['members'] |= add
            for g in gone:
                model[g] = None
            stat['clump'] += 1
        elif k == 'release':
            c = pick(op[2], 'c')
            if c is None:
                continue
            mem = sorted(model[c]['members'])
            i = mem[op[1] % len(mem)] if op[3] else pick(op[1], 'sm')
            ok = model[i]['clump'] == c and len(mem) > 2
            if model[i]['clump'] == c and len(mem) < 2:
                continue
            O.bodies.releaseFromClump(i, c)
            if ok:
                model[c]['members'].discard(i)
                model[i]['kind'], model[i]['clump'] = 's', -1
                stat['clump'] += 1
        elif k == 'step':
            O.step()
        verify(w)
    return {'nt': bool(stat['erase'] and (stat['clump'] or stat['refill'])), 'labels': [k for k, v in stat.items() if v]}
