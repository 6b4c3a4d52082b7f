"""Saving: a saved simulation, reloaded, is the simulation that was saved, and it continues exactly as if nothing had happened."""
from ylib import check, fail, Reject
import laws, math, os, tempfile

RULE = 'a case is non-trivial when the saved scene had at least one real contact and the continuation ran at least two steps'
QUICK, THOROUGH = 900, 25000
ASSUMPTIONS = ['single thread', 'permanent forces and timing data are not part of a saved simulation', 'continuations are compared within 1e-7 of their scale: the order of summation may differ after loading']
FMT = ['.xml', '.xml.gz', '.xml.bz2', '.yade', '.yade.gz', '.yade.bz2', 'mem', 'mem:a']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-10, 10).map(lambda x: x / 10)
    m3 = st.lists(c, min_size=9, max_size=9)
    extra = st.sampled_from(['grav', 'trans', 'rot', 'harm', 'force', 'gsts', 'py', 'central', 'peri', 'helix', 'drag'])
    return st.fixed_dictionaries({'law': st.sampled_from(['cundall', 'cundall', 'mindlin', 'cohfrict'] + sorted(laws.LAWS)), 'p': laws.params(), 'bodies': laws.packing(2, 5), 'dt': st.sampled_from([1e-3, 2e-4]),
                                  'k': st.integers(0, 15), 'n': st.integers(1, 15), 'fmt': st.sampled_from(FMT), 'again': st.sampled_from([None, None] + FMT), 'verlet': st.sampled_from([0., 0., .05, .3, -.5]),
                                  'extra': st.lists(extra, max_size=3, unique=True), 'per': st.one_of(st.none(), st.none(), m3), 'clump': st.booleans(), 'erase': st.sampled_from([None, None, 0, 1]),
                                  'fixed': st.sampled_from(['', '', 'box', 'facet', 'wall']), 'E': st.booleans(), 'gap': st.integers(0, 2), 'damping': st.sampled_from([0., .3]), 'block': st.sampled_from(['', '', 'x', 'yZ', 'XYZ']),
                                  'homo': st.sampled_from([2, 2, 1, 0])})


def scene(case, B):
    from yade import wrapper as w, utils
    from minieigen import Vector3, Matrix3
    O = w.Omega()
    law = case['law']
    ids = laws.build(law, case['p'], B, case['dt'], verlet=case['verlet'], trackE=case['E'], gap=case['gap'], damping=case['damping'])
    eng = list(O.engines)
    if law in ('cundall', 'mindlin', 'viscel', 'l3'):
        m = O.materials[0]
        if case['fixed'] == 'box':
            O.bodies.append(utils.box(Vector3(0, 0, -.95), Vector3(1.5, 1.5, .5), fixed=True, material=m))
        elif case['fixed'] == 'facet':
            O.bodies.append(utils.facet([Vector3(-3, -2, -.49), Vector3(3, -2, -.49), Vector3(0, 4, -.49)], material=m))
        elif case['fixed'] == 'wall':
            O.bodies.append(utils.wall(Vector3(0, 0, -.49), 2, sense=0, material=m))
        if case['fixed']:
            nm = {'box': 'Box', 'facet': 'Facet', 'wall': 'Wall'}[case['fixed']]
            eng[1].boundDispatcher.functors = eng[1].boundDispatcher.functors + [getattr(w, 'Bo1_%s_Aabb' % nm)()]
            g = getattr(w, 'Ig2_%s_Sphere_%s' % (nm, 'L3Geom' if law == 'l3' else 'ScGeom' + ('6D' if nm == 'Facet' and law == 'mindlin' and case['p']['opt'] % 5 == 3 else '')), None)
            if g is None or law == 'l3' and nm == 'Box' or law == 'mindlin' and case['p']['opt'] % 5 == 3 and nm != 'Facet':
                raise Reject
            eng[2].geomDispatcher.functors = eng[2].geomDispatcher.functors + [g()]
        if case['clump'] and law != 'l3' and len(B) > 2 and not case['per']:
            O.bodies.clump([ids[1], ids[2]])
    if case['block']:
        O.bodies[ids[len(ids) - 1]].state.blockedDOFs = case['block']
    pre, post = [], []
    i0 = ids[0]
    for x in case['extra']:
        if x == 'grav':
            pre.append(w.GravityEngine(gravity=Vector3(0, 1, -5), warnOnce=False))
        elif x == 'trans':
            pre.append(w.TranslationEngine(ids=[i0], velocity=.3, translationAxis=Vector3(0, .6, .8)))
        elif x == 'rot':
            pre.append(w.RotationEngine(ids=[i0], rotateAroundZero=True, zeroPoint=Vector3(1, 1, 0), rotationAxis=Vector3(0, 0, 1), angularVelocity=2))
        elif x == 'harm':
            pre.append(w.HarmonicMotionEngine(ids=[i0], A=Vector3(.1, 0, .2), f=Vector3(20, 1, 15), fi=Vector3(0, .4, 1)))
        elif x == 'force':
            pre.append(w.InterpolatingDirectedForceEngine(ids=[i0], times=[0, .01, .02], magnitudes=[0, 800, -500], direction=Vector3(1, 0, 0)))
        elif x == 'gsts':
            pre.append(w.GlobalStiffnessTimeStepper(timeStepUpdateInterval=4, defaultDt=case['dt'], maxDt=5 * case['dt'], timestepSafetyCoefficient=.1, active=True))
        elif x == 'py':
            post.append(w.PyRunner(iterPeriod=3, command='import builtins; builtins.c04_log.append((O.iter,O.time))', label='pyr', initRun=case['E'], nDo=4))
        elif x == 'central' and not case['per']:
            pre.append(w.CentralGravityEngine(centralBody=i0, accel=3., reciprocal=case['E']))
        elif x == 'helix':
            pre.append(w.InterpolatingHelixEngine(ids=[i0], times=[0, .005, .02], angularVelocities=[0, 3, -2], wrap=True, rotationAxis=Vector3(1, 0, 0), linearVelocity=.1, zeroPoint=Vector3(0, 1, 0)))
        elif x == 'drag':
            pre.append(w.LinearDragEngine(ids=[i0], nu=20.))
        elif x == 'peri' and case['per']:
            post.append(w.PeriTriaxController(goal=Vector3(-1e4, -1e4, -.05), stressMask=3, maxStrainRate=Vector3(1, 1, 1), globUpdate=3, dynCell=case['E'], mass=1e3))
    O.engines = eng[:3] + pre + [eng[3]] + post
    if case['per']:
        O.periodic = True
        O.cell.setBox(Vector3(4.2, 4.4, 4) + Vector3(1, 1, 1) * (2 if case['verlet'] == .3 or law in ('cpm', 'jcfpm', 'mortar', 'lubr') else 0))
        O.cell.velGrad = Matrix3(*case['per'])
        O.cell.homoDeform = case['homo']
    return ids


def builtin_log():
    import builtins
    builtins.c04_log = []
    return builtins.c04_log


# attributes documented or declared as not saved, or caches recomputed by the next step
VOLATILE = {'penetrationDepth', 'shearInc', 'min', 'max', 'normal@Facet', 'area', 'frictionDissipation', 'shearEnergy', 'normDampDissip', 'shearDampDissip', 'VLiqBridg', 'NLiqBridg', 'realLast', 'ompThreads', 'execTime', 'execCount', 'prevHSize'}


def attrs(o):
    try:
        return o.dict()
    except TypeError:  # JCFpmPhys has attributes unknown to python
        d = {}
        for k in dir(o):
            if k[0] != '_' and k not in ('dict', 'updateAttrs', 'dispHierarchy', 'dispIndex', 'kn_i', 'ks_i'):
                try:
                    d[k] = getattr(o, k)
                except TypeError:
                    pass
        return d


def dump(o, seen=None):
    """the attributes of an object, recursively, as plain values"""
    from yade import wrapper as w
    import numbers
    if isinstance(o, w.Serializable):
        n = type(o).__name__
        return [n] + [(k, dump(v)) for k, v in sorted(attrs(o).items()) if k not in VOLATILE and k + '@' + n not in VOLATILE and not (k in ('newton',))]
    if isinstance(o, (list, tuple)):
        return [dump(x) for x in o]
    if isinstance(o, dict):
        return [(str(k), dump(v)) for k, v in sorted(o.items(), key=lambda t: str(t[0]))]
    if isinstance(o, (str, bool, type(None))):
        return o
    if isinstance(o, numbers.Number):
        return o
    if hasattr(o, '__len__'):
        try:
            return [dump(o[i]) for i in range(len(o))]
        except Exception:
            pass
    if hasattr(o, 'rows'):
        return [list(map(float, o.row(i))) for i in range(o.rows())]
    return str(o)


def snapshot(full=True):
    from yade import wrapper as w
    O = w.Omega()
    d = dict(iter=O.iter, time=O.time, dt=O.dt, dynDt=O.dynDt if O.dynDtAvailable else None, periodic=O.periodic, trackE=O.trackEnergy, stopAtIter=O.stopAtIter, stopAtTime=O.stopAtTime,
             n=len(O.bodies), bodies={b.id: dump(b) for b in O.bodies}, materials=[dump(m) for m in O.materials], engines=[dump(e) for e in O.engines],
             inter={tuple(sorted((i.id1, i.id2))): dump(i) for i in O.interactions if i.isReal}, energy=sorted((k, v) for k, v in O.energy.items()), tags=sorted((k, O.tags[k]) for k in O.tags.keys() if k not in ('isoTime', 'id', 'd.id', 'id.d')))
    if O.periodic:
        d['cell'] = dump(O.cell)
    return d


def same(a, b, tol, path=''):
    """path of the first difference or None"""
    if isinstance(a, bool) or isinstance(a, str) or a is None:
        return None if a == b else '%s: %r / %r' % (path, a, b)
    if isinstance(a, (int, float)):
        if not isinstance(b, (int, float)):
            return '%s: %r / %r' % (path, a, b)
        if a == b or (math.isnan(a) and math.isnan(b)):
            return None
        return None if tol and abs(a - b) <= tol * max(1, abs(a)) else '%s: %r / %r' % (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys %s / %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = same(a[k], b[k], tol, path + '.' + str(k))
            if r:
                return r
        return None
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str):
        if a[0] != b[0]:
            return '%s: %s / %s' % (path, a[0], b[0])
        return same(a[1], b[1], tol, path + '.' + a[0])
    if len(a) != len(b):
        return '%s: length %d / %d' % (path, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        r = same(x, y, tol, path + ('' if isinstance(x, tuple) else '[%d]' % i))
        if r:
            return r
    return None


def strip(d):
    d['engines'] = [[x for x in e if x[0] != 'maxVelocitySq'] for e in d['engines'] if e[0] != 'InsertionSortCollider']
    for b in d['bodies'].values():
        b[:] = [x for x in b if x[0] != 'bound']
    for i in d['inter'].values():
        i[:] = [x for x in i if x[0] != 'iterBorn']


def run(case):
    from yade import wrapper as w
    import numpy as np
    O = w.Omega()
    B = laws.prepare(case['law'], case['bodies'])
    if B is None or case['per'] and case['fixed'] or case['law'] == 'bubble' and ('gsts' in case['extra'] or 'peri' in case['extra']):
        raise Reject
    tmp = tempfile.mkdtemp(prefix='c04')

    def save(fmt, k):
        if fmt.startswith('mem'):
            O.saveTmp(fmt, True)
        else:
            O.save('%s/%s%s' % (tmp, k, fmt), True)

    def load(fmt, k):
        if fmt.startswith('mem'):
            O.loadTmp(fmt, True)
        else:
            O.load('%s/%s%s' % (tmp, k, fmt), True)
    try:
        def upto(k, log):
            import random
            random.seed(7)
            ids = scene(case, B)
            for s in range(k):
                O.step()
                if s == 2 and case['erase'] is not None and len(ids) > 2 and not case['clump']:
                    O.bodies.erase(ids[1 + case['erase']])
            return ids
        # undisturbed
        log = builtin_log()
        ids = upto(case['k'], log)
        for s in range(case['n']):
            O.step()
        ref, reflog = snapshot(), list(log)
        # saved on the way
        log = builtin_log()
        upto(case['k'], log)
        before = snapshot()
        nreal = len(before['inter'])
        cut = list(log)
        save(case['fmt'], 'a')
        r = same(before, snapshot(), 0)
        check(r is None, 'saving as %s changed the simulation: %s', case['fmt'], r)
        for s in range(case['n']):
            O.step()
        r = same(ref, snapshot(), 0)
        check(r is None, 'a simulation that was saved as %s goes on differently: %s', case['fmt'], r)
        # reloaded
        O.reset()
        load(case['fmt'], 'a')
        if case['again']:
            save(case['again'], 'b')
            O.reset()
            load(case['again'], 'b')
        after = snapshot()
        r = same(before, after, 0)
        check(r is None, 'loaded from %s (%s), something differs from what was saved: %s', case['fmt'], case['again'], r)
        # contacts know their bodies and bodies their contacts
        for i in O.interactions:
            check(i in O.bodies[i.id1].intrs() and i in O.bodies[i.id2].intrs(), 'contact %d-%d is not listed by its bodies after loading', i.id1, i.id2)
        for b in O.bodies:
            if b.material is not None and b.material.id >= 0:
                check(O.materials[b.material.id] == b.material, 'material of body %d is no longer shared', b.id)
        log = builtin_log()
        log += cut
        ok = True
        for s in range(case['n']):
            O.step()
        got = snapshot()
        # bookkeeping of the collider restarts after loading
        strip(ref), strip(got)
        for k in set(ref['inter']) & set(got['inter']):  # contacts born after loading may have their bodies in the other order
            if dict(x for x in ref['inter'][k] if isinstance(x, tuple))['id1'] != dict(x for x in got['inter'][k] if isinstance(x, tuple))['id1'] and k not in before['inter']:
                ref['inter'][k] = got['inter'][k] = None
        r = same(ref, got, 1e-7)
        if r is not None and not sensitive(case, B, ref, upto):
            fail('continued from %s (%s), the simulation differs from the uninterrupted one: %s', case['fmt'], case['again'], r)
        check(len(log) == len(reflog) and all(a[0] == b[0] for a, b in zip(log, reflog)), 'a periodic engine ran at %s after reloading, at %s otherwise', log, reflog)
        return {'nt': nreal > 0 and case['n'] > 1, 'labels': [case['law'], case['fmt']]}
    finally:
        for f in os.listdir(tmp):
            os.remove(tmp + '/' + f)
        os.rmdir(tmp)


def sensitive(case, B, ref, upto):
    """does the uninterrupted run itself change this much when a position is moved by one part in 1e14?"""
    from yade import wrapper as w
    from minieigen import Vector3
    O = w.Omega()
    log = builtin_log()
    for sgn in (1, -1):
        upto(case['k'], log)
        for b in O.bodies:
            if b.clumpId < 0:
                b.state.pos = b.state.pos + Vector3(3e-15, 2e-15, -2e-15) * sgn * (1 + b.id)
        for s in range(case['n']):
            O.step()
        got = snapshot()
        strip(got)
        if same(ref, got, 1e-8) is not None:
            return True
    return False
