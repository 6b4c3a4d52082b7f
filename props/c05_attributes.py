"""Attributes: what is assigned is what is read, and it survives constructors, dictionaries, pickling and saved files, for every class."""
from ylib import check, fail
import math, os, re, tempfile, pickle, shutil

RULE = 'a case is non-trivial when at least two attributes of one object were given values different from their defaults and went through a copy (pickle, dictionary or saved file)'
QUICK, THOROUGH = 2000, 60000
ENV = {'OMP_NUM_THREADS': '1'}
ASSUMPTIONS = ['classes are those importable in yade.wrapper (static drawing settings excluded); derived quantities which the class recomputes when it is loaded, and attributes '
               'declared as not saved on the unchanged tree, are compared only where they are meant to survive']
# attributes which the unchanged tree does not save (declared so: caches, geometry recomputed in each step, statistics)
NOSAVE = {('Bound', 'max'), ('Bound', 'min'), ('Facet', 'area'), ('Facet', 'normal'), ('HdapsGravityEngine', 'accel'), ('Law2_ScGeom_MindlinPhys_Mindlin', 'frictionDissipation'),
          ('Law2_ScGeom_MindlinPhys_Mindlin', 'normDampDissip'), ('Law2_ScGeom_MindlinPhys_Mindlin', 'shearDampDissip'), ('Law2_ScGeom_MindlinPhys_Mindlin', 'shearEnergy'),
          ('Law2_ScGeom_ViscElCapPhys_Basic', 'NLiqBridg'), ('Law2_ScGeom_ViscElCapPhys_Basic', 'VLiqBridg'), ('LawTester', '_path'), ('LawTester', '_pathT'), ('LawTester', 'trsf'),
          ('PFacet', 'area'), ('PFacet', 'normal'), ('ScGeom', 'penetrationDepth'), ('ScGeom', 'shearInc')}


def strategy(tier):
    from hypothesis import strategies as st
    f = st.one_of(st.integers(-16, 16).map(lambda x: x / 8), st.floats(-1e6, 1e6), st.sampled_from([1e-300, 1.7976931348623157e308, -0.0, 1 / 3, 2.**-1074, 123456789.123456789]))
    s = st.one_of(st.text('ab<>&"\' \\/.é\n\t;=', max_size=8), st.sampled_from(['', 'x', 'a b', '/tmp/x y', ']]>', '&amp;']))
    val = st.fixed_dictionaries({'a': st.integers(0, 60), 'f': st.lists(f, min_size=9, max_size=9), 's': s, 'n': st.integers(0, 4)})
    obj = st.fixed_dictionaries({'cls': st.integers(0, 399), 'set': st.lists(val, min_size=1, max_size=6), 'how': st.sampled_from(['set', 'kw', 'update'])})
    return st.fixed_dictionaries({'objs': st.lists(obj, min_size=1, max_size=3), 'via': st.sampled_from(['pickle', 'pickle2', 'dict', 'xml', 'xml.gz', 'xml.bz2', 'bin', 'bin.gz', 'yade', 'mem'])})


_C = None


def classes():
    """(class, {attr: (type, flags, owner)}) in name order; instance attributes with a documented type"""
    global _C
    if _C is None:
        from yade import wrapper as W
        _C = []
        for n, c in sorted(vars(W).items()):
            if not (isinstance(c, type) and issubclass(c, W.Serializable)) or n in SKIP:
                continue
            at = {}
            for k in c.__mro__:
                for a, p in vars(k).items():
                    if isinstance(p, property) and a not in at:
                        d = p.__doc__ or ''
                        m, f = re.search(r':yattrtype:`([^`]*)`', d), re.search(r':yattrflags:`\s*(\d+)', d)
                        if m:
                            at[a] = (m.group(1).replace('std::', '').strip(), int(f.group(1)) if f else 0, k.__name__)
            _C.append((c, at))
    return _C


SKIP = {'Scene', 'Omega', 'Interaction', 'BodyContainer', 'InteractionContainer', 'Cell', 'EnergyTracker'}
REAL = {'Real', 'double'}
INT = {'int', 'long', 'Body::id_t', 'short int'}
UINT = {'unsigned int', 'size_t', 'mask_t'}
MAKE = ('Real', 'double', 'bool', 'int', 'long', 'Body::id_t', 'short int', 'unsigned int', 'size_t', 'mask_t', 'string', 'Vector3r', 'Vector2r', 'Vector6r', 'Vector3i', 'Vector2i', 'Vector6i', 'Quaternionr',
        'Matrix3r', 'vector<double>', 'vector<Real>', 'vector<int>', 'vector<Body::id_t>', 'vector<bool>', 'vector<string>', 'vector<Vector3r>', 'vector<Vector2r>', 'vector<Vector6r>', 'shared_ptr<MatchMaker>')


def make(t, d):
    """a python value of C++ type t"""
    import minieigen as M
    from yade import wrapper as W
    f = d['f']
    i = [max(-2**31, min(2**31 - 1, int(x))) if abs(x) < 1e18 else 7 for x in f]
    if t in REAL:
        return f[0]
    if t == 'bool':
        return f[0] > 0
    if t == 'short int':
        return i[0] % 30000
    if t in INT:
        return i[0]
    if t in UINT:
        return abs(i[0])
    if t == 'string':
        return d['s']
    if t == 'Vector3r':
        return M.Vector3(*f[:3])
    if t == 'Vector2r':
        return M.Vector2(*f[:2])
    if t == 'Vector6r':
        return M.Vector6(*f[:6])
    if t == 'Vector3i':
        return M.Vector3i(*i[:3])
    if t == 'Vector2i':
        return M.Vector2i(*i[:2])
    if t == 'Vector6i':
        return M.Vector6i(*i[:6])
    if t == 'Matrix3r':
        return M.Matrix3(*f)
    if t == 'Quaternionr':
        q = [max(-3, min(3, x)) for x in f[:4]]
        n = math.sqrt(sum(x * x for x in q))
        return M.Quaternion(*[x / n for x in q]) if n > 1e-3 else M.Quaternion(.6, .8, 0, 0)
    m = re.match(r'vector<(.*)>$', t)
    if m:
        el = m.group(1)
        out = []
        for k in range(d['n']):
            g = dict(d, f=f[k:] + f[:k])
            out.append(make(el, g))
        return out
    if t == 'shared_ptr<MatchMaker>':
        return W.MatchMaker(matches=[(i[0] % 5, i[1] % 5, f[2])], algo=['avg', 'min', 'max', 'harmAvg', 'zero'][d['n']], val=f[3])


def plain(v, depth=0):
    """comparable form"""
    from yade import wrapper as W
    import minieigen as M
    if isinstance(v, float):
        return 'nan' if v != v else v
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, M.Quaternion):
        return [v[i] for i in range(4)]
    if isinstance(v, (M.Matrix3, M.Matrix6)):
        return [plain(x) for r in v for x in r]
    if isinstance(v, W.Serializable):
        return attrs(v, depth + 1) if depth < 4 else type(v).__name__
    try:
        return [plain(x, depth) for x in v]
    except TypeError:
        return repr(type(v))


def attrs(o, depth=0):
    """all readable documented attributes"""
    out = {}
    for a, (t, fl, k) in lookup(type(o)).items():
        try:
            v = getattr(o, a)
        except TypeError:
            continue                 # no conversion to python for this type
        out[a] = plain(v, depth)
    return dict(out, __class__=type(o).__name__)


_L = {}


def lookup(c):
    if c not in _L:
        for k, at in classes():
            _L[k] = at
        _L.setdefault(c, {})
    return _L[c]


def same(a, b, tol):
    return a == b or (tol and isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-14 * max(abs(a), abs(b)))


def diff(a, b, skip=(), tol=False):
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get('__class__') != b.get('__class__'):
            return ['class %s/%s' % (a.get('__class__'), b.get('__class__'))]
        out = []
        for k in a:
            if k not in skip and k not in nosave(a['__class__']):
                r = diff(a[k], b.get(k, 'absent'), (), tol or k in NORMALISED)
                if r:
                    out.append('%s: %s' % (k, r[0] if isinstance(a[k], dict) else '%r -> %r' % (a[k], b.get(k, 'absent'))))
        return out
    if isinstance(a, list) and isinstance(b, list):
        return [] if len(a) == len(b) and not any(diff(x, y, (), tol) for x, y in zip(a, b)) else ['%r -> %r' % (a, b)]
    return [] if same(a, b, tol) and isinstance(a, bool) == isinstance(b, bool) else ['%r -> %r' % (a, b)]


def nosave(cn):
    from yade import wrapper as W
    c = getattr(W, cn, None)
    return {a for a, (t, fl, k) in lookup(c).items() if (k, a) in NOSAVE} if c else set()


# (owner, attribute): value is not the assigned one by design (normalised, clamped, recomputed on assignment), or assigning arbitrary values is outside the domain
DERIVED = {('WireMat', 'as')}
AVOID = set()
UNREADABLE = ('NodeMap', 'Triangles', 'NodePairsMap', 'vector<Interaction*>', 'Interaction*', 'ContainerT', 'CapType')


def run(case):
    import yade
    from yade import wrapper as W, utils
    from yade.wrapper import Omega
    from minieigen import Vector3
    O = Omega()
    O.reset()
    C = classes()
    made, labels, nt = [], set(), False
    via = case['via']
    for d in case['objs']:
        c, at = C[d['cls'] % len(C)]
        names = [a for a in sorted(at) if at[a][0] in MAKE and not at[a][1] & 2 and (at[a][2], a) not in AVOID]
        o0 = c()
        default = attrs(o0)
        kw = {}
        if 'translationAxis' in at:
            kw['translationAxis'] = Vector3(1, 0, 0)      # has no initial value
        for s in d['set']:
            if names:
                a = names[s['a'] % len(names)]
                kw[a] = make(at[a][0], s)
        pv = {a: plain(v) for a, v in kw.items()}
        if any(at[a][1] & 4 for a in kw):
            labels.add('postload')
        try:
            if d['how'] == 'kw':
                o = c(**kw)
            else:
                o = c()
                if d['how'] == 'update':
                    o.updateAttrs(kw)
                else:
                    for a, v in kw.items():
                        setattr(o, a, v)
        except (RuntimeError, ValueError) as e:
            if any(at[a][1] & 4 for a in kw) or c.__name__ in REFUSES:
                continue                # the class refuses these values
            fail('%s(%s): %r', c.__name__, pv, e)
        got = attrs(o)
        trig = any(at[a][1] & 4 for a in kw)
        for a in kw:
            if not trig and (at[a][2], a) not in DERIVED:
                check(got[a] == pv[a], '%s.%s: assigned %r, reads %r', c.__name__, a, pv[a], got[a])
        for a in got:
            if a not in kw and not trig and a != '__class__' and (at[a][2], a) not in DERIVED and at[a][0] in ('bool', 'int', 'string'):   # (vectors may have no initial value)
                check(got[a] == default[a], '%s.%s changed from %r to %r when %s was assigned', c.__name__, a, default[a], got[a], sorted(kw))
        # refusals
        for a in at:
            if at[a][1] & 2 and at[a][0] in MAKE:
                try:
                    setattr(o, a, make(at[a][0], d['set'][0]))
                except AttributeError:
                    pass
                else:
                    fail('%s.%s is read-only but was assigned', c.__name__, a)
                break
        try:
            c(noSuchAttribute_=1)
        except AttributeError:
            pass
        else:
            fail('%s accepted an unknown attribute', c.__name__)
        # dictionary
        try:
            dd = o.dict()
        except TypeError as e:
            if not any(t in UNREADABLE for t, fl, k in at.values()) and c.__name__ not in NODICT:
                fail('%s.dict(): %r', c.__name__, e)
            dd = None
        if dd is not None:
            pd = {a: plain(v) for a, v in dd.items()}
            for a in got:
                if a != '__class__' and a in pd:
                    check(not diff([got[a]], [pd[a]]), '%s.dict()[%r] is %r, attribute is %r', c.__name__, a, pd[a], got[a])
            for a in kw:
                check(a in pd, '%s.dict() lacks %s', c.__name__, a)
        made.append((c, at, o, got, dd))
        nt = nt or sum(got[a] != default[a] for a in kw) >= 2
        labels.add('how ' + d['how'])
    labels.add(via)
    if not made:
        return {'nt': False, 'labels': sorted(labels)}
    if via in ('pickle', 'pickle2', 'dict'):
        for c, at, o, got, dd in made:
            if dd is None:
                continue
            try:
                if via == 'dict':
                    p = c()
                    for a, v in dd.items():
                        if a in at and not at[a][1] & 2:
                            setattr(p, a, v)
                    skip = {a for a in at if at[a][1] & 2}
                else:
                    p = pickle.loads(pickle.dumps(o, 2 if via == 'pickle2' else -1))
                    skip = set()
            except Exception as e:
                if c.__name__ in REFUSES or c.__name__ in NODICT:
                    continue
                fail('%s: copy through %s: %r', c.__name__, via, e)
            r = diff(got, attrs(p), skip | set(RELOADED.get(c.__name__, ())))
            check(not r, '%s: %s does not survive %s', c.__name__, '; '.join(r[:3]), via)
        return {'nt': nt, 'labels': sorted(labels)}
    # ---- through a saved scene
    put, eng, pairs = [], [], []
    for c, at, o, got, dd in made:
        if issubclass(c, (W.IGeom, W.IPhys)):
            base = len(O.bodies)
            fm = W.FrictMat()
            O.bodies.append([utils.sphere((10 * base, 0, 0), 1, material=fm), utils.sphere((10 * base + 1, 0, 0), 1, material=fm)])
            nm = 'geom' if issubclass(c, W.IGeom) else 'phys'
            pairs.append((base, nm, o))
            put.append((c, lambda O, k=base, nm=nm: getattr(O.interactions[k, k + 1], nm), attrs(o)))
    if pairs:
        O.engines = [W.InsertionSortCollider([W.Bo1_Sphere_Aabb()], verletDist=0),
                     W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()])]
        O.dt = 1e-9
        O.step()
        for k, nm, o in pairs:
            setattr(O.interactions[k, k + 1], nm, o)
    for c, at, o, got, dd in made:
        if c.__name__ == 'LawTester' and len(o.ids) not in (0, 2):
            continue                    # refused when loaded
        if issubclass(c, W.Engine) and c.__name__ not in NOENGINE:
            o.dead = True
            o.label = ''
            put.append((c, lambda O, k=len(eng): O.engines[k], attrs(o)))
            eng.append(o)
        elif issubclass(c, W.Material):
            k = O.materials.append(o)
            put.append((c, lambda O, k=k: O.materials[k], attrs(o)))
        elif issubclass(c, W.Functor) and c.__name__ not in NOENGINE:
            D = None
            for base, disp in (('BoundFunctor', 'BoundDispatcher'), ('IGeomFunctor', 'IGeomDispatcher'), ('IPhysFunctor', 'IPhysDispatcher'), ('LawFunctor', 'LawDispatcher')):
                if issubclass(c, getattr(W, base)) and c is not getattr(W, base):
                    D = getattr(W, disp)
            if D is None:
                continue
            o.label = ''
            e = D([o])
            e.dead = True
            put.append((c, lambda O, k=len(eng): O.engines[k].functors[0], attrs(o)))
            eng.append(e)
        elif issubclass(c, (W.Shape, W.State, W.Bound)) and c.__name__ not in NOBODY:
            b = W.Body()
            nm = 'shape' if issubclass(c, W.Shape) else 'state' if issubclass(c, W.State) else 'bound'
            setattr(b, nm, o)
            k = O.bodies.append(b)
            put.append((c, lambda O, k=k, nm=nm: getattr(O.bodies[k], nm), attrs(o)))
    if not put:
        return {'nt': False, 'labels': sorted(labels)}
    O.engines = eng
    if via == 'mem':
        O.saveTmp('c05', quiet=True)
        O.loadTmp('c05', quiet=True)
    else:
        tmp = tempfile.mkdtemp(prefix='c05')
        fn = os.path.join(tmp, 's.' + via)
        O.save(fn, quiet=True)
        O.load(fn, quiet=True)
        shutil.rmtree(tmp, ignore_errors=True)
    for c, get, was in put:
        r = diff(was, attrs(get(O)), RELOADED.get(c.__name__, ()))
        check(not r, '%s: %s does not survive saving to %s', c.__name__, '; '.join(r[:3]), via)
    return {'nt': nt, 'labels': sorted(labels)}


REFUSES = {'LawTester'}
NOENGINE = set()
NOBODY = set()
RELOADED = {'WireMat': ('as',)}        # computed from the others when loaded
NORMALISED = {'rotationAxis', 'axisDir', 'translationAxis'}
NODICT = {'ParallelEngine', 'Integrator', 'RungeKuttaCashKarp54Integrator', 'InternalForceDispatcher', 'FEInternalForceEngine'}   # hold C++ lists which have no python equivalent
