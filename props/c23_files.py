"""Files: what is exported (text, VTK, LIGGGHTS) carries the data of the scene, and what is imported (text, gmsh, STL, UNV, IGES, tetgen, LSMGenGeo) creates exactly the geometry of the file."""
from ylib import check, fail, Reject
import math, os, shutil, struct, tempfile

RULE = 'a case is non-trivial when the file written or read describes at least two bodies (or one interaction) and, for exports, at least one attribute, mask, erased body, clump, orientation, shift or periodic cell is in play'
QUICK, THOROUGH = 700, 6000
CASE_TIMEOUT = 60
ASSUMPTIONS = ['numbers are compared within the 6 significant digits which the text formats carry (VTK XML points within single precision)',
               'quantities passed to the exporters are numbers, Vector3 or Matrix3, of one type over all bodies']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.one_of(st.integers(-300, 300).map(lambda x: x / 100), st.floats(-50, 50, allow_nan=False), st.integers(-3, 3).map(float))
    v3 = st.tuples(c, c, c).map(list)
    sc = st.sampled_from([1., 1., 2., .5, 1e-3, 37.25])
    ori = st.one_of(st.none(), st.tuples(v3, c).map(list))
    rad = st.integers(10, 300).map(lambda x: x / 1000)
    body = st.fixed_dictionaries({'t': st.sampled_from(['s', 's', 's', 's', 'f', 'b', 'c']), 'p': v3, 'r': rad, 'm': st.sampled_from([1, 1, 2, 3, 4, 6]), 'mat': st.integers(0, 2), 'v': v3, 'w': v3, 'q': ori, 'dead': st.sampled_from([0, 0, 0, 0, 1]), 'fix': st.booleans()})
    imp = {'shift': v3, 'scale': sc, 'ori': ori}
    attr = st.lists(st.sampled_from(['b.state.vel', 'b.state.mass', 'b.id', 'b.state.pos.norm()', 'b.state.ori.toRotationMatrix()', 'b.shape.radius*2', 'O.forces.f(b.id)', 'b.state.angVel', 'b.mask']), max_size=4, unique=True)
    text = st.fixed_dictionaries(dict(imp, kind=st.just('text'), bodies=st.lists(body, max_size=12), fmt=st.sampled_from(['x_y_z_r', 'x_y_z_r_matId', 'id_x_y_z_r_matId', 'x_y_z_r_attrs', 'x_y_z_r_attrs', 'liggghts_in', 'text', 'gmshGeo']),
                                      comment=st.sampled_from(['', 'some words', 'first line\nsecond line']), mask=st.sampled_from([-1, -1, 1, 2, 5]), attrs=attr, vtk=st.booleans(), sec=st.tuples(v3, v3).map(list)))
    sph = st.tuples(v3, rad).map(list)
    clumps = st.fixed_dictionaries(dict(imp, kind=st.just('clumps'), clumps=st.lists(st.lists(sph, min_size=1, max_size=4), min_size=1, max_size=5), alone=st.lists(sph, max_size=3), mask=st.sampled_from([-1, -1, 1, 2]), masks=st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=6), comment=st.sampled_from(['', 'c'])))
    mesh = st.fixed_dictionaries(dict(imp, kind=st.just('mesh'), fmt=st.sampled_from(['gmsh', 'stla', 'stlb', 'unv', 'iges', 'ele', 'geo']), nodes=st.lists(v3, min_size=4, max_size=12), tri=st.lists(st.tuples(*[st.integers(0, 11)] * 4).map(list), min_size=1, max_size=12), rad=rad, junk=st.booleans()))
    poly = st.fixed_dictionaries(dict(imp, kind=st.just('poly'), polys=st.lists(st.fixed_dictionaries({'v': st.lists(st.tuples(st.integers(0, 11), st.integers(-8, 8), st.integers(-8, 8), st.integers(-8, 8)).map(list), min_size=5, max_size=10, unique_by=lambda t: t[0]), 'p': v3, 'q': ori, 'm': st.sampled_from([1, 2, 3])}), min_size=1, max_size=4), attrs=attr.map(lambda a: [x for x in a if 'radius' not in x]), mask=st.sampled_from([-1, -1, 1, 2]), vtk=st.booleans(), ref=st.booleans()))
    scene = {'n': st.integers(2, 14), 'bodies': st.lists(body, min_size=2, max_size=12), 'box': st.integers(4, 12).map(lambda x: x / 10), 'peri': st.booleans(), 'shear': st.lists(st.integers(-6, 6).map(lambda x: x / 10), min_size=9, max_size=9), 'steps': st.integers(1, 4)}
    what = st.lists(st.sampled_from([0, 1, 2, 3]), max_size=3, unique=True)
    vtk = st.fixed_dictionaries(dict(scene, kind=st.just('vtk'), what=what, vw=what, ids=st.booleans(), lab=st.sampled_from([None, 0, 7]), ref=st.booleans(), snap=st.integers(0, 3)))
    recs = st.lists(st.sampled_from(['spheres', 'facets', 'boxes', 'velocity', 'mass', 'colors', 'intr', 'id', 'mask', 'clumpId', 'materialId', 'stress', 'force', 'coordNumber', 'pericell', 'bstresses']), min_size=1, max_size=9, unique=True)
    rec = st.fixed_dictionaries(dict(scene, kind=st.just('rec'), recs=st.one_of(st.just(['all']), recs), skipF=st.booleans(), skipN=st.booleans(), mask=st.sampled_from([0, 0, 1, 2])))
    return st.one_of(text, clumps, mesh, poly, vtk, vtk, rec, rec)


# ---------------------------------------------------------------- helpers
def near(a, b, mag=0., rel=6e-6):
    return a == b or abs(a - b) <= rel * max(abs(b), mag) + 1e-11


def vnear(a, b, mag=None, rel=6e-6):
    a, b = [float(x) for x in a], [float(x) for x in b]
    m = max([abs(x) for x in b] + [mag or 0.])
    return len(a) == len(b) and all(near(x, y, m if mag is not None else 0., rel) for x, y in zip(a, b))


def flat(v):
    from minieigen import Matrix3, Vector3
    if isinstance(v, Matrix3):
        return [v[i, j] for i in range(3) for j in range(3)]
    if isinstance(v, Vector3):
        return [v[i] for i in range(3)]
    return [float(v)]


def quat(o):
    from minieigen import Quaternion, Vector3
    if o is None:
        return Quaternion((0, 1, 0), 0.)
    a = Vector3(o[0])
    if a.norm() < 1e-3:
        return Quaternion((0, 1, 0), 0.)
    return Quaternion(a / a.norm(), o[1])


def legacy(fn):
    """parse a legacy ASCII VTK file -> dict"""
    L = open(fn).read().split('\n')
    check(L[0].startswith('# vtk DataFile Version') and L[2].strip() == 'ASCII', 'VTK header of %s is %r', fn, L[:3])
    tok = ' '.join(L[3:]).split()
    D = {'cell': {}, 'point': {}, 'comment': L[1]}
    i, sec, nsec = 0, None, 0

    def take(n):
        nonlocal i
        check(i + n <= len(tok), 'VTK file is truncated: wanted %d more values, has %d', n, len(tok) - i)
        try:
            r = [float(x) for x in tok[i:i + n]]
        except ValueError:
            fail('VTK file has a non-number among the %d values it announces: %r', n, tok[i:i + n][:12])
        i += n
        return r
    while i < len(tok):
        k = tok[i]
        if k == 'DATASET':
            D['type'] = tok[i + 1]; i += 2
        elif k == 'POINTS':
            n = int(tok[i + 1]); i += 3
            r = take(3 * n); D['points'] = [r[3 * j:3 * j + 3] for j in range(n)]
        elif k in ('POLYGONS', 'LINES', 'CELLS'):
            n, m = int(tok[i + 1]), int(tok[i + 2]); i += 3
            r = [int(x) for x in take(m)]
            cells = []
            while r:
                cells.append(r[1:1 + r[0]]); r = r[1 + r[0]:]
            check(len(cells) == n and all(0 <= x < len(D['points']) for c in cells for x in c), 'VTK %s: %d announced, %d present, or bad point index', k, n, len(cells))
            D['cells'] = cells
        elif k == 'CELL_TYPES':
            n = int(tok[i + 1]); i += 2; D['types'] = take(n)
        elif k in ('POINT_DATA', 'CELL_DATA'):
            sec = 'point' if k[0] == 'P' else 'cell'; nsec = int(tok[i + 1]); i += 2
            exp = len(D['points']) if sec == 'point' else len(D.get('cells', []))
            check(nsec == exp, 'VTK %s announces %d values for %d items', k, nsec, exp)
        elif k in ('SCALARS', 'VECTORS', 'TENSORS'):
            check(sec is not None, 'VTK data array outside any data section')
            name = tok[i + 1]
            if k == 'SCALARS':
                check(tok[i + 3] == '1' and tok[i + 4] == 'LOOKUP_TABLE', 'SCALARS header'); i += 6; w = 1
            else:
                i += 3; w = 3 if k == 'VECTORS' else 9
            r = take(w * nsec)
            D[sec][name] = [r[w * j:w * j + w] for j in range(nsec)]
        else:
            fail('VTK file: unexpected %r (at token %d, after %r)', k, i, tok[max(0, i - 6):i])
    return D


def xmlvtk(fn):
    import xml.etree.ElementTree as ET
    piece = ET.parse(fn).getroot()[0].find('Piece')

    def arr(e):
        w = int(e.get('NumberOfComponents', '1'))
        t = [float(x) for x in (e.text or '').split()]
        return [t[i:i + w] for i in range(0, len(t), w)]
    D = {'point': {}, 'cell': {}}
    D['points'] = arr(piece.find('Points')[0]) if len(piece.find('Points')) else []
    for sec in ('point', 'cell'):
        s = piece.find('PointData' if sec == 'point' else 'CellData')
        if s is not None:
            for e in s:
                D[sec][e.get('Name')] = arr(e)
    for t in ('Cells', 'Lines'):
        e = piece.find(t)
        if e is not None:
            a = {x.get('Name'): [int(y[0]) for y in arr(x)] for x in e}
            cells, s = [], 0
            for o in a.get('offsets', []):
                cells.append(a['connectivity'][s:o]); s = o
            D['cells'] = cells
            D['types'] = a.get('types')
    n = {'point': int(piece.get('NumberOfPoints')), 'cell': len(D['cells'])}
    check(len(D['points']) == n['point'], '%s: %d points announced, %d present', os.path.basename(fn), n['point'], len(D['points']))
    for sec in ('point', 'cell'):
        for k, v in D[sec].items():
            check(len(v) == n[sec], '%s: array %s has %d values for %d %ss', os.path.basename(fn), k, len(v), n[sec], sec)
    check(all(0 <= x < n['point'] for c in D['cells'] for x in c), 'bad point index')
    return D


def fverts(b):
    return [b.state.pos + b.state.ori * v for v in b.shape.vertices]


def build(bodies, mats):
    """bodies list -> ids; returns model of clumps"""
    from yade import O, utils
    from minieigen import Vector3, Quaternion
    O.materials.append(mats)
    kill = []
    for s in bodies:
        p, q = Vector3(s['p']), quat(s['q'])
        kw = dict(material=s['mat'], mask=s['m'])
        if s['t'] == 's':
            i = O.bodies.append(utils.sphere(p, s['r'], fixed=s['fix'], **kw))
        elif s['t'] == 'f':
            i = O.bodies.append(utils.facet([p, p + q * Vector3(s['r'] * 3, 0, 0), p + q * Vector3(0, s['r'] * 2, .01)], **kw))
        elif s['t'] == 'b':
            i = O.bodies.append(utils.box(p, (s['r'], s['r'] * 1.3, s['r'] * .7), orientation=q, fixed=True, **kw))
        else:
            i, _ = O.bodies.appendClumped([utils.sphere(p, s['r'], **kw), utils.sphere(p + q * Vector3(s['r'] * .8, 0, 0), s['r'] * .7, **kw)])
        b = O.bodies[i]
        b.state.vel, b.state.angVel = Vector3(s['v']), Vector3(s['w'])
        if s['t'] in 'sb':
            b.state.ori = q
        if s['dead'] and s['t'] != 'c':
            kill.append(i)
    for i in kill:
        O.bodies.erase(i)


def spheres(mask):
    from yade import O
    from yade.wrapper import Sphere
    return [b for b in O.bodies if isinstance(b.shape, Sphere) and (mask < 0 or mask & b.mask)]


def mats(n=3):
    from yade.wrapper import FrictMat
    return [FrictMat(young=1e6, poisson=.3, frictionAngle=.4, density=2000. + 500 * i) for i in range(n)]


def run(case):
    from yade import O
    O.reset()
    tmp = tempfile.mkdtemp(prefix='vpc23.')
    try:
        return globals()['k_' + case['kind']](case, tmp)
    finally:
        O.reset()
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- text
def k_text(case, tmp):
    from yade import O, export, ymport
    from minieigen import Vector3
    build(case['bodies'], mats())
    for k, s in enumerate(case['bodies']):
        if k < len(O.bodies) and O.bodies[k]:
            O.forces.addF(k, Vector3(s['v'])) if s['t'] == 's' else None
    fn, fmt, mask = os.path.join(tmp, 'a.txt'), case['fmt'], case['mask']
    S = spheres(mask)
    attrs = case['attrs']
    names = []
    for a in attrs:
        n = len(flat(eval(a, {'b': S[0], 'O': O}))) if S else 1
        names += ['a%d_%d' % (attrs.index(a), j) for j in range(n)]
    comment = case['comment'].replace('\n', '\n#')
    if fmt == 'x_y_z_r_attrs':
        comment = (case['comment'] + '\n' if case['comment'] else '') + ' '.join(names)
    labels = [fmt]
    if fmt == 'gmshGeo':
        n = export.gmshGeo(fn, mask=mask, accuracy=-1)
        check(n == len(S), 'gmshGeo returns %d for %d spheres', n, len(S))
        import re
        pts = re.findall(r'Point\((\d+)\) = \{([^}]*)\}', open(fn).read())
        check([int(a) for a, _ in pts] == list(range(1, 7 * n + 1)), 'gmshGeo points are not numbered 1..%d', 7 * n)
        P = [[float(x) for x in t.split(',')[:3]] for _, t in pts]
        for k, b in enumerate(S):
            r, p = b.shape.radius, b.state.pos
            q = P[7 * k:7 * k + 7]
            mag = max(abs(x) for x in p) + r
            check(vnear(q[0], p, mag), 'gmshGeo centre of sphere %d is %s, not %s', b.id, q[0], p)
            want = sorted([tuple(p + s * r * Vector3(*[float(j == a) for j in range(3)])) for a in range(3) for s in (1, -1)])
            for w in want:
                check(any(vnear(x, w, mag) for x in q[1:]), 'gmshGeo misses the point %s of sphere %d', w, b.id)
        return {'nt': len(S) > 1, 'labels': labels}
    if fmt == 'text':
        n = export.text(fn, mask=mask)
        fmt = 'x_y_z_r'
    else:
        n = export.textExt(fn, format=fmt, comment=comment, mask=mask, attrs=attrs)
    check(n == len(S), 'textExt(%s) returns %s for %d spheres', fmt, n, len(S))
    nt = len(S) >= 2
    if fmt == 'liggghts_in':
        T = open(fn).read()
        if not S:
            return {'nt': False, 'labels': labels}
        lines = [l.split() for l in T.split('\n')]
        check(['%d' % n, 'atoms'] in lines and ['%d' % len({b.mask for b in S}), 'atom', 'types'] in lines, 'LIGGGHTS header does not announce %d atoms of %d types', n, len({b.mask for b in S}))
        for ax, nm in enumerate('xyz'):
            l = [x for x in lines if len(x) == 4 and x[2] == nm + 'lo'][0]
            lo, hi = min(b.state.pos[ax] - b.shape.radius for b in S), max(b.state.pos[ax] + b.shape.radius for b in S)
            check(near(float(l[0]), lo) and near(float(l[1]), hi), 'LIGGGHTS %s bounds are %s..%s, the spheres reach %g..%g', nm, l[0], l[1], lo, hi)
        a, v = lines.index(['Atoms']), lines.index(['Velocities'])
        A, V = [x for x in lines[a + 1:v] if x], [x for x in lines[v + 1:] if x]
        check(len(A) == len(V) == n, 'LIGGGHTS lists %d atoms and %d velocities of %d', len(A), len(V), n)
        for k, b in enumerate(S):
            check(vnear(A[k], [k + 1, b.mask, b.shape.radius, b.material.density] + list(b.state.pos)), 'LIGGGHTS atom %d is %s', k + 1, A[k])
            check(vnear(V[k], [k + 1] + list(b.state.vel) + list(b.state.angVel)), 'LIGGGHTS velocity %d is %s', k + 1, V[k])
        return {'nt': nt, 'labels': labels}
    # values to compare with
    ref = [(b.id, Vector3(b.state.pos), b.shape.radius, b.material.id, [x for a in attrs for x in flat(eval(a, {'b': b, 'O': O}))]) for b in S]
    got = []
    if fmt == 'x_y_z_r_attrs' and case['vtk']:
        labels.append('text2vtk')
        out = os.path.join(tmp, 'a.vtk')
        export.text2vtk(fn, out)
        D = legacy(out)
        check(len(D['points']) == len(ref), 'text2vtk writes %d of %d spheres', len(D['points']), len(ref))
        for k, (i, p, r, m, av) in enumerate(ref):
            check(vnear(D['points'][k], p) and near(D['point']['radius'][k][0], r), 'text2vtk: sphere %d', i)
            for j, nm in enumerate(names):
                check(near(D['point'][nm][k][0], av[j]), 'text2vtk: %s of sphere %d is %s, not %g', nm, i, D['point'][nm][k], av[j])
        pt, nr = [Vector3(x) for x in case['sec']]
        if nr.norm() > 1e-2 and ref:
            labels.append('section')
            pt = pt * .02 + ref[len(ref) // 2][1]
            export.text2vtkSection(fn, out, tuple(pt), tuple(nr))
            D = legacy(out)
            nn = nr / nr.norm()
            sure, maybe = [], 0
            for i, p, r, m, av in ref:
                d = (p - pt).dot(nn)
                e = 1e-4 * (1 + p.norm() + pt.norm())
                if abs(d) < r - e:
                    sure.append((i, p - d * nn, math.sqrt(r * r - d * d), r, av, e))
                elif abs(d) <= r + e:
                    maybe += 1
            check(len(sure) <= len(D['points']) <= len(sure) + maybe, 'section shows %d circles, %d spheres are cut (%d grazed)', len(D['points']), len(sure), maybe)
            for i, c, rc, r, av, e in sure:
                ok = False
                for k, q in enumerate(D['points']):
                    if (Vector3(q) - c).norm() < 2 * e and abs(D['point']['radius'][k][0] - rc) < 4 * e * r / max(rc, 1e-9) and near(D['point']['radiusOrig'][k][0], r):
                        ok = ok or all(near(D['point'][nm][k][0], av[j]) for j, nm in enumerate(names))
                check(ok, 'section lacks the circle of sphere %d (centre %s, radius %g)', i, c, rc)
    shift, scale = Vector3(case['shift']), case['scale']
    B = ymport.text(fn, shift=shift, scale=scale, material=0) if case['fmt'] == 'text' else ymport.textExt(fn, 'x_y_z_r', shift=shift, scale=scale, attrs=got, **({} if 'matId' in fmt else {'material': 1}))
    check(len(B) == len(ref), 'import of %s reads %d of %d spheres', fmt, len(B), len(ref))
    for k, (b, (i, p, r, m, av)) in enumerate(zip(B, ref)):
        w = shift + scale * p
        mag = max(abs(scale * x) for x in p) + max(abs(x) for x in shift)
        check(vnear(b.state.pos, w, mag) and near(b.shape.radius, scale * r), 'sphere %d comes back from %s at %s r=%g, not %s r=%g', i, fmt, b.state.pos, b.shape.radius, w, scale * r)
        if 'matId' in fmt:
            check(b.material.id == m, 'sphere %d comes back with material %d, not %d', i, b.material.id, m)
        if fmt == 'x_y_z_r_attrs':
            check(vnear(got[k], av), 'attributes of sphere %d come back as %s, not %s', i, got[k], av)
    return {'nt': nt, 'labels': labels}


def k_clumps(case, tmp):
    from yade import O, utils, export, ymport
    from minieigen import Vector3
    O.materials.append(mats(1))
    ms = case['masks']
    k = 0
    cl = []
    for c in case['clumps']:
        mem = []
        for p, r in c:
            mem.append(utils.sphere(Vector3(p) * .2, r, mask=ms[k % len(ms)])); k += 1
        cid, mids = O.bodies.appendClumped(mem)
        cl.append((cid, mids))
        for p, r in case['alone'][:1]:
            O.bodies.append(utils.sphere(p, r))
    mask = case['mask']
    fn = os.path.join(tmp, 'c.txt')
    want, nsp = [], 0
    for cid, mids in cl:
        m = [(Vector3(O.bodies[i].state.pos), O.bodies[i].shape.radius) for i in sorted(mids) if mask < 0 or mask & O.bodies[i].mask]
        nsp += len(m)
        if m:
            want.append(m)
    r = export.textClumps(fn, mask=mask, comment=case['comment'])
    check(tuple(r) == (len(cl), nsp), 'textClumps returns %s for %d clumps, %d members', r, len(cl), nsp)
    O.reset()
    O.materials.append(mats(1))
    shift, scale, q = Vector3(case['shift']), case['scale'], quat(case['ori'])
    ret = ymport.textClumps(fn, shift=shift, scale=scale, orientation=q, mask=2)
    check(len(ret) == len(want), 'textClumps reads %d clumps of %d', len(ret), len(want))
    for (cid, mids), m in zip(ret, want):
        check(O.bodies[cid].isClump and len(mids) == len(m) and O.bodies[cid].mask == 2, 'clump %d has %d of %d members', cid, len(mids), len(m))
        for i, (p, rr) in zip(mids, m):
            w = shift + scale * (q * p)
            mag = scale * p.norm() + max(abs(x) for x in shift)
            check(O.bodies[i].clumpId == cid and vnear(O.bodies[i].state.pos, w, mag) and near(O.bodies[i].shape.radius, scale * rr), 'member comes back at %s r=%g, not %s r=%g', O.bodies[i].state.pos, O.bodies[i].shape.radius, w, scale * rr)
    return {'nt': len(want) > 1, 'labels': ['clumps']}


def k_mesh(case, tmp):
    from yade import O, ymport
    from minieigen import Vector3
    O.materials.append(mats(1))
    N, fmt = [Vector3(x) for x in case['nodes']], case['fmt']
    T, seen = [], set()
    for t in case['tri']:
        t = [x % len(N) for x in t]
        a, b, c, d = [N[x] for x in t]
        e = [(a - b).norm(), (b - c).norm(), (c - a).norm()]
        if len(set(t[:3])) < 3 or min(e) < 1e-2 or (b - a).cross(c - a).norm() < 1e-2 * max(e)**2:
            continue
        if fmt == 'ele' and (len(set(t)) < 4 or abs((b - a).cross(c - a).dot(d - a)) < 1e-2 * max(e + [(d - a).norm(), (d - b).norm(), (d - c).norm()])**3):
            continue
        T.append(t)
    if not T:
        raise Reject('no usable triangle')
    fn, fn2 = os.path.join(tmp, 'm.dat'), os.path.join(tmp, 'm.2')
    shift, scale, q = Vector3(case['shift']), case['scale'], quat(case['ori'])
    junk = case['junk']
    g = lambda v: '%.17g %.17g %.17g' % tuple(v)
    rel = 1e-9
    if fmt == 'gmsh':
        with open(fn, 'w') as f:
            f.write('MeshVersionFormatted 1\nDimension\n3\nVertices\n%d\n' % len(N))
            f.writelines(g(v) + ' 0\n' for v in N)
            if junk:
                f.write('Edges\n1\n1 2 0\n')
            f.write('Triangles\n%d\n' % len(T))
            f.writelines('%d %d %d 0\n' % tuple(x + 1 for x in t[:3]) for t in T)
            f.write('End\n')
        B = ymport.gmsh(fn, shift=shift, scale=scale, orientation=q, material=0)
        tr = lambda v: q * (scale * v) + shift
    elif fmt in ('stla', 'stlb'):
        tr = lambda v: v
        rel = 3e-7
        if fmt == 'stla':
            with open(fn, 'w') as f:
                f.write('solid some name\n')
                for t in T:
                    f.write(' facet normal 0 0 1\n  outer loop\n' + ''.join('   vertex %s\n' % g(N[x]) for x in t[:3]) + '  endloop\n endfacet\n')
                f.write('endsolid some name\n')
        else:
            with open(fn, 'wb') as f:
                f.write(b'binary stl'.ljust(80, b'\0' if junk else b' ') + struct.pack('<i', len(T)))
                for t in T:
                    f.write(struct.pack('<12fh', 0., 0., 0., *[float(y) for x in t[:3] for y in N[x]], 0))
        B = ymport.stl(fn, material=0)
    elif fmt == 'unv':
        with open(fn, 'w') as f:
            f.write('    -1\n  2411\n')
            for i, v in enumerate(N):
                f.write('%10d         1         1        11\n%s\n' % (i + 1, '  '.join('%.16E' % x for x in v)))
            f.write('    -1\n    -1\n  2412\n')
            if junk:
                f.write('         1        11         2         1         7         2\n         0         1         1\n         1         2\n')
            for i, t in enumerate(T):
                f.write('%10d        41         2         1         7         3\n%10d%10d%10d\n' % ((i + 2,) + tuple(x + 1 for x in t[:3])))
            f.write('    -1\n')
        B, nodes, els = ymport.unv(fn, shift=tuple(shift), scale=scale, returnConnectivityTable=True, material=0)
        check([tuple(e) for e in els] == [tuple(t[:3]) for t in T], 'unv connectivity table is %s, not %s', els, T)
        check(len(nodes) == len(N), 'unv reads %d of %d nodes', len(nodes), len(N))
        tr = lambda v: scale * v + shift
    elif fmt == 'iges':
        with open(fn, 'w') as f:
            f.write('header line\n')
            f.writelines('134,%s,0;  1P\n' % g(v).replace(' ', ',') for v in N)
            f.writelines('136,1,3,%d,%d,%d,0; 2P\n' % tuple(2 * x + 1 for x in t[:3]) for t in T)
        B = ymport.iges(fn, shift=tuple(shift), scale=scale, material=0)
        tr = lambda v: scale * v + shift
    elif fmt == 'ele':
        with open(fn, 'w') as f:
            f.write(('# comment\n' if junk else '') + '%d 3 0 0\n' % len(N))
            for i, v in enumerate(N):
                f.write(('# c\n' if junk and i == 1 else '') + '%d %s\n' % (i + 1, g(v)))
        with open(fn2, 'w') as f:
            f.write(('# comment\n' if junk else '') + '%d 4 0\n' % len(T))
            f.writelines('%d %d %d %d %d\n' % ((i + 1,) + tuple(x + 1 for x in t)) for i, t in enumerate(T))
        B = ymport.ele(fn, fn2, shift=tuple(shift), scale=scale, material=0)
        check(len(B) == len(T), 'tetgen import makes %d tetrahedra of %d', len(B), len(T))
        for b, t in zip(B, T):
            V = [scale * N[x] + shift for x in t]
            got = [b.state.pos + b.state.ori * v for v in b.shape.v]
            mag = max(max(abs(y) for y in v) for v in V)
            check(len(got) == 4 and all(any(vnear(x, v, mag, 1e-8) for x in got) for v in V), 'tetrahedron %s comes back with vertices %s, not %s', t, got, V)
            vol = abs((V[1] - V[0]).cross(V[2] - V[0]).dot(V[3] - V[0])) / 6
            check(near(b.shape.GetVolume(), vol, 0, 1e-6), 'volume %g of tetrahedron is not %g', b.shape.GetVolume(), vol)
        return {'nt': len(T) > 1, 'labels': ['mesh:ele']}
    else:
        with open(fn, 'w') as f:
            f.write('LSMGeometry 1.2\nBoundingBox -1 -1 -1 1 1 1\nPeriodicBoundaries 0 0 0\nDimension 3D\nBeginParticles\nSimple\n%d\n' % len(N))
            f.writelines('%s %.17g %d 0\n' % (g(v), case['rad'], i) for i, v in enumerate(N))
            f.write('EndParticles\n')
        B = ymport.gengeoFile(fn, shift=shift, scale=scale, orientation=q, material=0)
        check(len(B) == len(N), 'gengeoFile reads %d of %d spheres', len(B), len(N))
        for b, v in zip(B, N):
            w = shift + scale * (q * v)
            check(vnear(b.state.pos, w, w.norm() + scale * v.norm(), 1e-9) and near(b.shape.radius, scale * case['rad'], 0, 1e-9), 'gengeoFile sphere at %s r=%g, not %s', b.state.pos, b.shape.radius, w)
        return {'nt': len(N) > 1, 'labels': ['mesh:geo']}
    check(len(B) == len(T), '%s import makes %d facets of %d', fmt, len(B), len(T))
    O.bodies.append(B)
    for b, t in zip(B, T):
        V = [tr(N[x]) for x in t[:3]]
        mag = max(max(abs(y) for y in v) for v in V) + (max(abs(x) for x in shift) if fmt not in ('stla', 'stlb') else 0)
        got = fverts(b)
        check(all(vnear(x, v, mag, rel * 10) for x, v in zip(got, V)), '%s: facet %s comes back as %s, not %s', fmt, t, got, V)
        e = [V[1] - V[0], V[2] - V[1], V[0] - V[2]]
        ar = e[0].cross(e[1]).norm() / 2
        check(b.bound is not None or True, '')
        check(near(b.shape.area, ar, 0, 1e-3 if fmt[:3] == 'stl' else 1e-6), '%s: area of the facet is %g, not %g', fmt, b.shape.area, ar)
        check(b.state.blockedDOFs == 'xyzXYZ' and b.material.id == 0, '%s: facet is not fixed or has no material', fmt)
    return {'nt': len(T) > 1, 'labels': ['mesh:' + fmt]}


def k_poly(case, tmp):
    import numpy as np
    from yade import O, export, ymport, polyhedra_utils
    from yade.wrapper import PolyhedraMat
    from minieigen import Vector3, Quaternion
    import random
    m = PolyhedraMat(density=2600)
    O.materials.append(m)
    for s in case['polys']:
        g = (1 + math.sqrt(5)) / 2
        ico = [[0, x, y * g] for x in (1, -1) for y in (1, -1)]
        ico = ico + [[v[1], v[2], v[0]] for v in ico] + [[v[2], v[0], v[1]] for v in ico]
        U = np.array([np.array(ico[t[0]]) + np.array(t[1:]) * .04 for t in s['v']])
        U /= np.linalg.norm(U, axis=1)[:, None]
        if np.linalg.svd(U - U.mean(0))[1][2] < .35:
            raise Reject('degenerate hull')
        b = polyhedra_utils.polyhedra(m, v=[Vector3(*[float(y) for y in x]) for x in U], mask=s['m'], color=(1, 0, 0))
        b.state.pos = Vector3(s['p'])
        b.state.refPos = Vector3(s['p']) + Vector3(.1, -.2, .3)
        b.state.ori = quat(s['q']) * b.state.ori
        O.bodies.append(b)
    mask = case['mask']
    S = [b for b in O.bodies if mask < 0 or mask & b.mask]
    fn = os.path.join(tmp, 'p.txt')
    n = export.textPolyhedra(fn, mask=mask, comment='c', attrs=case['attrs'] if case['vtk'] else [])
    check(n == len(S), 'textPolyhedra returns %d of %d', n, len(S))
    ver = [[b.state.pos + b.state.ori * v for v in b.shape.v] for b in S]
    if case['vtk']:
        L = [l.split() for l in open(fn) if not l.startswith('#')]
        k = 0
        for b, V in zip(S, ver):
            h = L[k]
            av = [x for a in case['attrs'] for x in flat(eval(a, {'b': b, 'O': O}))]
            check([int(x) for x in h[:2]] == [b.id, len(V)] and vnear(h[3:], av), 'textPolyhedra header %s (attributes %s)', h, av)
            for j, v in enumerate(V):
                check(vnear(L[k + 1 + j], v, v.norm(), 1e-7), 'textPolyhedra vertex %s, not %s', L[k + 1 + j], v)
            ns = int(h[2])
            for l in L[k + 1 + len(V):k + 1 + len(V) + ns]:
                f = [V[int(x)] for x in l]
                nn = (f[1] - f[0]).cross(f[2] - f[0])
                check(len(f) >= 3 and len(set(l)) == len(l), 'face %s', l)
                sides = [(v - f[0]).dot(nn) / nn.norm() for v in V]
                check(max(sides) < 1e-5 or min(sides) > -1e-5, 'face %s of polyhedron %d is not on its hull (%g..%g)', l, b.id, min(sides), max(sides))
            k += 1 + len(V) + ns
        check(k == len(L), 'textPolyhedra wrote %d lines, %d described', len(L), k)
    vals = [[flat(eval(a, {'b': b, 'O': O})) for a in case['attrs']] for b in O.bodies]
    ex = export.VTKExporter(os.path.join(tmp, 'v'))
    ex.exportPolyhedra(what=[('w%d' % i, a) for i, a in enumerate(case['attrs'])], useRef=case['ref'])
    D = legacy(os.path.join(tmp, 'v-polyhedra-00000000.vtk'))
    k = f = 0
    allb = list(O.bodies)
    check(len(D['points']) == sum(len(b.shape.v) for b in allb), 'exportPolyhedra writes %d points', len(D['points']))
    owner = []
    for b in allb:
        for v in b.shape.v:
            cur, rf = b.state.pos + b.state.ori * v, b.state.refPos + b.state.refOri * v
            w = rf if case['ref'] else cur
            check(vnear(D['points'][k], w, w.norm()), 'exportPolyhedra: vertex of body %d at %s, not %s', b.id, D['points'][k], w)
            if case['ref']:
                check(vnear(D['point']['displacement'][k], cur - rf, (cur - rf).norm()), 'exportPolyhedra: displacement')
            owner.append(b.id); k += 1
    area = {}
    for c, l in enumerate(D['cells']):
        o = {owner[x] for x in l}
        check(len(o) == 1, 'face %s joins vertices of several polyhedra', l)
        i = o.pop()
        for j in range(len(case['attrs'])):
            check(vnear(D['cell']['w%d' % j][c], vals[i][j]), 'exportPolyhedra: w%d of body %d is %s, not %s', j, i, D['cell']['w%d' % j][c], vals[i][j])
        p = [Vector3(*D['points'][x]) for x in l]
        area.setdefault(i, []).append((p, (p[1] - p[0]).cross(p[2] - p[0]) / 2))
    for b in allb:
        vol = abs(sum(p[0].dot(n) for p, n in area.get(b.id, []))) / 3
        check(near(vol, b.shape.GetVolume(), max(1, b.state.pos.norm()), 1e-3), 'the exported surface of body %d encloses %g, its volume is %g', b.id, vol, b.shape.GetVolume())
    if not case['vtk']:
        shift, scale, q = Vector3(case['shift']), case['scale'], quat(case['ori'])
        B = ymport.textPolyhedra(fn, m, shift=shift, scale=scale, orientation=q, color=(1, 0, 0))
        check(len(B) == len(S), 'textPolyhedra reads %d polyhedra of %d', len(B), len(S))
        for b, V, s in zip(B, ver, S):
            got = [b.state.pos + b.state.ori * v for v in b.shape.v]
            W = [q * (scale * v) + shift for v in V]
            mag = max(w.norm() for w in W) + shift.norm()
            check(len(got) == len(W) and all(any(vnear(x, w, mag, 1e-6) for x in got) for w in W), 'polyhedron %d comes back with vertices %s, not %s', s.id, got, W)
            check(near(b.shape.GetVolume(), scale**3 * s.shape.GetVolume(), 0, 1e-4 * (1 + mag / scale)), 'volume comes back as %g, not %g', b.shape.GetVolume(), scale**3 * s.shape.GetVolume())
    return {'nt': len(S) > 1, 'labels': ['poly'] + (['poly:attrs'] if case['vtk'] else ['poly:import'])}


# ---------------------------------------------------------------- scenes with contacts
def scene(case):
    from yade import O, utils
    from yade.wrapper import InsertionSortCollider, InteractionLoop, ForceResetter, NewtonIntegrator, Bo1_Sphere_Aabb, Bo1_Facet_Aabb, Bo1_Box_Aabb, Ig2_Sphere_Sphere_ScGeom, Ig2_Facet_Sphere_ScGeom, Ig2_Box_Sphere_ScGeom, Ip2_FrictMat_FrictMat_FrictPhys, Law2_ScGeom_FrictPhys_CundallStrack
    from minieigen import Vector3, Matrix3
    L = case['box']
    peri = case['peri']
    if peri:
        O.periodic = True
        h = [x * .3 * L + (2 * L if i % 4 == 0 else 0) for i, x in enumerate(case['shear'])]
        O.cell.setBox(2 * L, 2 * L, 2 * L)
        O.cell.hSize = Matrix3(*h)
    bs = []
    for j, s in enumerate(case['bodies']):
        t = dict(s)
        t['p'] = [((x * 7.31 + .3719 * j + .217 * a * j) % 1.0) * L * (2.6 if peri else 1) - (.5 * L if peri else 0) for a, x in enumerate(s['p'])]
        t['r'] = min(s['r'] + .1, .2 * 2 * L if peri else 1)
        if peri and t['t'] in 'b':
            t['t'] = 's'
        if peri and t['t'] == 'f':
            t['r'] = min(t['r'], .1 * L)
        bs.append(t)
    build(bs, mats())
    for b in O.bodies:
        b.state.refPos = Vector3(b.state.pos)
        b.state.vel = b.state.vel * .05
        b.state.angVel = b.state.angVel * .05
    O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Facet_Aabb(), Bo1_Box_Aabb()], allowBiggerThanPeriod=True),
                 InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(damping=.2)]
    O.dt = 1e-4
    O.run(case['steps'], True)
    for b in O.bodies:
        if not all(math.isfinite(x) for x in b.state.pos):
            raise Reject('coincident bodies')


BW = [('bv', 'b.state.vel'), ('bm', 'b.state.mass'), ('bo', 'b.state.ori.toRotationMatrix()'), ('bi', 'b.id')]
IW = [('n', 'i.geom.normal'), ('kn', 'i.phys.kn'), ('tn', 'i.geom.normal.outer(i.phys.shearForce)'), ('id2', 'i.id2')]


def k_vtk(case, tmp):
    from yade import O, export
    from yade.wrapper import Sphere, Facet
    from minieigen import Vector3
    scene(case)
    base = os.path.join(tmp, 'x')
    ex = export.VTKExporter(base, case['snap'])
    lab = case['lab']
    num = case['snap'] if lab is None else lab
    labels, nt = [], False
    W = [BW[k] for k in case['what']]
    ev = lambda c, b: flat(eval(c, {'b': b, 'b1': b, 'b2': b, 'O': O}))
    peri = O.periodic
    for cls, nm in ((Sphere, 'spheres'), (Facet, 'facets')):
        B = [b for b in O.bodies if isinstance(b.shape, cls)]
        if case['ids']:
            B = B[::2]
        ids = [b.id for b in B] if case['ids'] else 'all'
        if not B:
            continue
        fn = base + '-%s-%08d.vtk' % (nm, num)
        if cls is Sphere:
            ex.exportSpheres(ids=ids, what=W, numLabel=lab, useRef=case['ref'], comment='hello world')
            D = legacy(fn)
            check(D['comment'] == 'hello world' and len(D['points']) == len(B), 'exportSpheres writes %d of %d', len(D['points']), len(B))
            for k, b in enumerate(B):
                p = b.state.refPos if case['ref'] else (O.cell.wrap(b.state.pos) if peri else b.state.pos)
                check(vnear(D['points'][k], p) and near(D['point']['radius'][k][0], b.shape.radius), 'exportSpheres: body %d is at %s r=%s, not %s r=%g', b.id, D['points'][k], D['point']['radius'][k], p, b.shape.radius)
                for n, c in W:
                    check(vnear(D['point'][n][k], ev(c, b)), 'exportSpheres: %s of body %d is %s, not %s', n, b.id, D['point'][n][k], ev(c, b))
        else:
            for mesh in (False, True):
                if mesh:
                    ex.facetsSnapCount = case['snap']
                    conn = [(3 * k, 3 * k + 1, 3 * k + 2) for k in range(len(B))][::-1]
                    ex.exportFacetsAsMesh(ids=ids, connectivityTable=conn, what=W, numLabel=lab)
                else:
                    ex.exportFacets(ids=ids, what=W, numLabel=lab)
                D = legacy(fn)
                check(len(D['cells']) == len(B), 'exportFacets writes %d of %d', len(D['cells']), len(B))
                for k, b in enumerate(B):
                    got = [D['points'][x] for x in D['cells'][k]]
                    check(all(vnear(x, v) for x, v in zip(got, fverts(b))), 'exportFacets(mesh=%s): body %d has vertices %s, not %s', mesh, b.id, got, fverts(b))
                    for n, c in W:
                        check(vnear(D['cell'][n][k], ev(c, b)), 'exportFacets: %s of body %d is %s, not %s', n, b.id, D['cell'][n][k], ev(c, b))
                os.remove(fn)
        nt = nt or len(B) > 1
        labels.append('vtk:' + nm)
    I = [i for i in O.interactions if i.isReal]
    ids = [(i.id1, i.id2) for i in I][::2] if case['ids'] else [(i.id1, i.id2) for i in I]
    if ids:
        VW = []
        for j, k in enumerate(case['vw']):
            n, c = BW[k]
            VW.append((n + 'v', c) if j % 2 == 0 else (n + 'v', c.replace('b.', 'b1.'), '2*' + c.replace('b.', 'b2.')))
        Wi = [IW[k] for k in case['what']]
        ex.exportInteractions(ids=ids, what=Wi, verticesWhat=VW, numLabel=lab, useRef=case['ref'])
        D = legacy(base + '-intrs-%08d.vtk' % num)
        check(len(D['cells']) == len(ids), 'exportInteractions writes %d of %d', len(D['cells']), len(ids))
        for k, (a, b) in enumerate(ids):
            i = O.interactions[a, b]
            ps = [Vector3(O.bodies[x].state.refPos if case['ref'] else O.bodies[x].state.pos) for x in (a, b)]
            if peri:
                ps[1] += O.cell.hSize * Vector3(*[float(x) for x in i.cellDist])
            got = [D['points'][x] for x in D['cells'][k]]
            check(vnear(got[0], ps[0], ps[0].norm()) and vnear(got[1], ps[1], ps[1].norm()), 'exportInteractions: %d-%d drawn %s, not %s', a, b, got, ps)
            for n, c in Wi:
                w = flat(eval(c, {'i': i}))
                check(vnear(D['cell'][n][k], w), 'exportInteractions: %s of %d-%d is %s, not %s', n, a, b, D['cell'][n][k], w)
            for v in VW:
                for e, x in enumerate((a, b)):
                    w = ev(v[1] if len(v) == 2 or e == 0 else v[2], O.bodies[x])
                    check(vnear(D['point'][v[0]][D['cells'][k][e]], w), 'exportInteractions: %s at body %d is %s, not %s', v[0], x, D['point'][v[0]][D['cells'][k][e]], w)
        ex.exportContactPoints(ids=ids, what=Wi, numLabel=lab)
        D = legacy(base + '-cps-%08d.vtk' % num)
        check(len(D['points']) == len(ids), 'exportContactPoints writes %d of %d', len(D['points']), len(ids))
        for k, (a, b) in enumerate(ids):
            i = O.interactions[a, b]
            check(vnear(D['points'][k], i.geom.contactPoint), 'exportContactPoints: %d-%d at %s, not %s', a, b, D['points'][k], i.geom.contactPoint)
            for n, c in Wi:
                check(vnear(D['point'][n][k], flat(eval(c, {'i': i}))), 'exportContactPoints: %s of %d-%d', n, a, b)
        labels.append('vtk:intr')
        nt = True
    if peri:
        ex2 = export.VTKExporter(base + 'c', case['snap'])
        ex2.exportPeriodicCell(numLabel=lab)
        D = legacy(base + 'c-periCell-%08d.vtk' % num)
        cellcheck(D)
        labels.append('vtk:cell')
    return {'nt': nt, 'labels': labels}


def cellcheck(D, rel=6e-6):
    from yade import O
    from minieigen import Vector3
    H = O.cell.hSize
    # VTK hexahedron: 0-1-2-3 one face in order, 4-5-6-7 the opposite one, vertically matched
    P = [Vector3(*D['points'][x]) for x in D['cells'][0]]
    mag = max(abs(H[i, j]) for i in range(3) for j in range(3)) * 3
    want = [H * Vector3(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    check(len(P) == 8 and int(D['types'][0]) == 12 and all(any(vnear(p, w, mag, rel) for p in P) for w in want), 'the periodic cell is drawn as %s', P)
    for f in ((0, 1, 2, 3), (4, 5, 6, 7)):
        check(vnear(P[f[0]] + P[f[2]], P[f[1]] + P[f[3]], mag, 4 * rel), 'the faces of the drawn cell are twisted')
    for k in range(4):
        check(vnear(P[k] - P[k + 4], P[0] - P[4], mag, 4 * rel), 'the faces of the drawn cell do not match')


def k_rec(case, tmp):
    import numpy as np
    from yade import O, utils
    from yade.wrapper import VTKRecorder, Sphere, Facet, Box, Clump
    from minieigen import Vector3
    scene(case)
    base = os.path.join(tmp, 'r-')
    recs = case['recs']
    if 'pericell' in recs and not O.periodic:
        recs = [r for r in recs if r != 'pericell'] or ['spheres']
    rec = VTKRecorder(fileName=base, ascii=True, recorders=recs, skipFacetIntr=case['skipF'], skipNondynamic=case['skipN'], mask=case['mask'], iterPeriod=1)
    rec()
    al = recs == ['all']
    on = lambda x: x in recs or (al and x != 'bstresses')
    peri = O.periodic
    wrap = (lambda p: O.cell.wrap(p)) if peri else (lambda p: p)
    labels, nt = [], False
    it = O.iter
    # coordination numbers and stresses from the interactions
    I = [i for i in O.interactions if i.isReal]
    coord = {b.id: 0 for b in O.bodies}
    for i in I:
        coord[i.id1] += 1; coord[i.id2] += 1
    R = 3e-6
    sel = [b for b in O.bodies if case['mask'] == 0 or b.mask & case['mask']]

    def cmp(D, sec, nm, k, w, b, mag=0.):
        check(nm in D[sec], '%s is not among the recorded arrays %s', nm, sorted(D[sec]))
        v = D[sec][nm][k]
        check(vnear(v, w, mag, R), 'VTKRecorder: %s of body %d is %s, not %s', nm, b.id, v, w)
    norm = lambda v: math.sqrt(sum(float(x)**2 for x in v))
    bst = utils.bodyStressTensors() if on('bstresses') else None
    if on('spheres'):
        B = [b for b in sel if isinstance(b.shape, Sphere) and not (case['skipN'] and b.state.blockedDOFs == 'xyzXYZ')]
        D = xmlvtk(base + 'spheres.%d.vtu' % it)
        check(len(D['points']) == len(B) == len(D['cells']), 'VTKRecorder writes %d spheres of %d', len(D['points']), len(B))
        for k, b in enumerate(B):
            p = wrap(b.state.pos)
            check(vnear(D['points'][k], p, p.norm(), R), 'VTKRecorder: sphere %d at %s, not %s', b.id, D['points'][k], p)
            check(D['cells'][k] == [k], 'cell of sphere %d', b.id)
            cmp(D, 'point', 'radii', k, [b.shape.radius], b)
            if on('id'): cmp(D, 'point', 'id', k, [b.id], b)
            if on('mask'): cmp(D, 'point', 'mask', k, [b.mask], b)
            if on('mass'): cmp(D, 'point', 'mass', k, [b.state.mass], b)
            if on('clumpId'): cmp(D, 'point', 'clumpId', k, [b.clumpId], b)
            if on('colors'): cmp(D, 'point', 'color', k, list(b.shape.color), b)
            if on('materialId'): cmp(D, 'point', 'materialId', k, [b.material.id], b)
            if on('coordNumber'): cmp(D, 'cell', 'coordNumber', k, [coord[b.id]], b)
            if on('velocity'):
                cmp(D, 'point', 'linVelVec', k, list(b.state.vel), b); cmp(D, 'point', 'linVelLen', k, [norm(b.state.vel)], b)
                cmp(D, 'point', 'angVelVec', k, list(b.state.angVel), b); cmp(D, 'point', 'angVelLen', k, [norm(b.state.angVel)], b)
            if on('force'):
                f, t = O.forces.f(b.id), O.forces.t(b.id)
                cmp(D, 'point', 'forceVec', k, list(f), b, norm(f)); cmp(D, 'point', 'forceLen', k, [norm(f)], b)
                cmp(D, 'point', 'torqueVec', k, list(t), b, norm(t)); cmp(D, 'point', 'torqueLen', k, [norm(t)], b)
            if on('bstresses'):
                S = np.array([[bst[b.id][i, j] for j in range(3)] for i in range(3)])
                sc = abs(S).max()
                S = np.tril(S) + np.tril(S, -1).T
                ev = np.linalg.eigvalsh(S)[::-1]
                for nm, dr, e in zip(('sigI', 'sigII', 'sigIII'), ('dirI', 'dirII', 'dirIII'), ev):
                    cmp(D, 'point', nm, k, [e], b, sc)
                    d = np.array(D['point'][dr][k])
                    check(abs(S @ d - e * d).max() <= 1e-4 * sc + 1e-12 and abs(d @ d - 1) < 1e-4, 'VTKRecorder: %s of body %d is %s, not a principal direction of %s', dr, b.id, d, S.tolist())
        labels.append('rec:spheres')
        nt = nt or len(B) > 1
    for cls, nm, per in ((Facet, 'facets', 1), (Box, 'boxes', 6)):
        if not on(nm):
            continue
        B = [b for b in sel if isinstance(b.shape, cls)]
        D = xmlvtk(base + '%s.%d.vtu' % (nm, it))
        check(len(D['cells']) == per * len(B), 'VTKRecorder writes %d %s cells for %d bodies', len(D['cells']), nm, len(B))
        for k, b in enumerate(B):
            p = wrap(b.state.pos)
            faces = []
            for c in range(per * k, per * k + per):
                got = [D['points'][x] for x in D['cells'][c]]
                faces.append(got)
                if on('colors'): cmp(D, 'cell', 'color', c, list(b.shape.color), b)
                if on('materialId'): cmp(D, 'cell', 'materialId', c, [b.material.id], b)
                if on('mask'): cmp(D, 'cell', 'mask', c, [b.mask], b)
                if on('force'):
                    f, t = O.forces.f(b.id), O.forces.t(b.id)
                    cmp(D, 'cell', 'forceVec', c, list(f), b, norm(f)); cmp(D, 'cell', 'forceLen', c, [norm(f)], b)
                    cmp(D, 'cell', 'torqueVec', c, list(t), b, norm(t)); cmp(D, 'cell', 'torqueLen', c, [norm(t)], b)
                if on('coordNumber') and cls is Facet:
                    cmp(D, 'cell', 'coordNumber', c, [coord[b.id]], b)
            if cls is Facet:
                W = [p + b.state.ori * v for v in b.shape.vertices]
                mag = p.norm() + max(v.norm() for v in b.shape.vertices)
                check(all(vnear(x, w, mag, R) for x, w in zip(faces[0], W)), 'VTKRecorder: facet %d drawn %s, not %s', b.id, faces[0], W)
            else:
                e = b.shape.extents
                mag = p.norm() + e.norm()
                sides = set()
                for f in faces:
                    loc = [b.state.ori.conjugate() * (Vector3(*x) - p) for x in f]
                    for x in loc:
                        check(all(abs(abs(x[a]) - e[a]) <= 1e-5 * mag for a in range(3)), 'VTKRecorder: box %d has a corner at %s (local), extents %s', b.id, x, e)
                    sg = [tuple(x[a] > 0 for a in range(3)) for x in loc]
                    same = [a for a in range(3) if len({s[a] for s in sg}) == 1]
                    check(len(set(sg)) == 4 and len(same) == 1, 'VTKRecorder: a face of box %d is %s', b.id, loc)
                    check(all(sum(s[a] != t[a] for a in range(3)) == 1 for s, t in zip(sg, sg[1:] + sg[:1])), 'VTKRecorder: a face of box %d is twisted', b.id)
                    sides.add((same[0], sg[0][same[0]]))
                check(len(sides) == 6, 'VTKRecorder: box %d shows %d different sides', b.id, len(sides))
        if B:
            labels.append('rec:' + nm)
    if on('intr'):
        D = xmlvtk(base + 'intrs.%d.vtp' % it)
        nb = sum(1 for b in O.bodies)
        J = [i for i in I if not case['skipF'] or all(isinstance(O.bodies[x].shape, Sphere) for x in (i.id1, i.id2))]
        # every interaction is drawn once, or twice (one end out of the cell each time) across a periodic boundary
        k = 0
        H = O.cell.hSize if peri else None
        for i in J:
            w1, w2 = wrap(O.bodies[i.id1].state.pos), wrap(O.bodies[i.id2].state.pos)
            br = O.bodies[i.id2].state.pos - O.bodies[i.id1].state.pos + (H * Vector3(*[float(x) for x in i.cellDist]) if peri else Vector3.Zero)
            mag = w1.norm() + w2.norm() + br.norm() + (norm([H[a, c] for a in range(3) for c in range(3)]) if peri else 0)
            tol = 1e-5 * mag
            inside = (w2 - w1 - br).norm() < tol
            need = [(w1, w2)] if inside else [(w1, w1 + br), (w2 - br, w2)]
            fn = i.phys.normalForce.dot(i.geom.normal)
            fs = [abs(x) for x in i.phys.shearForce]
            check(k + len(need) <= len(D['cells']), 'VTKRecorder writes %d lines; contact %d-%d (cellDist %s) is missing', len(D['cells']), i.id1, i.id2, i.cellDist)
            drawn = []
            for c in range(k, k + len(need)):
                drawn.append([Vector3(*D['points'][x]) for x in D['cells'][c]])
                check(vnear(D['cell']['forceN'][c], [fn], 0, R) and vnear(D['cell']['absForceT'][c], fs, norm(fs), R), 'VTKRecorder: forces of %d-%d are %s %s, not %g %s', i.id1, i.id2, D['cell']['forceN'][c], D['cell']['absForceT'][c], fn, fs)
            for a, b in need:
                check(any(((x[0] - a).norm() < tol and (x[1] - b).norm() < tol) or ((x[1] - a).norm() < tol and (x[0] - b).norm() < tol) for x in drawn), 'VTKRecorder: contact %d-%d (cellDist %s) drawn %s, not %s', i.id1, i.id2, i.cellDist if peri else None, drawn, need)
            k += len(need)
            nt = True
            if not inside:
                labels.append('rec:crossing')
        check(k == len(D['cells']), 'VTKRecorder writes %d lines for contacts which make %d', len(D['cells']), k)
        labels.append('rec:intr')
    if on('pericell') and peri:
        cellcheck(xmlvtk(base + 'pericell.%d.vtu' % it), 3e-6)
        labels.append('rec:pericell')
    return {'nt': nt, 'labels': sorted(set(labels))}
