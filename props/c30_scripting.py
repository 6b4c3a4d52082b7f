"""Scripting tools: parameter tables, recorded columns of data, integrals of tabulated functions, and operations on groups of bodies keep every value."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when a table has at least two lines, or at least two records were added, or at least two bodies were measured or modified'
QUICK, THOROUGH = 1500, 40000
ASSUMPTIONS = ['compressed output of plot.saveDataTxt and readParamsFromTable need Python 2 strings and are not exercised', 'tabulated functions are positive']
NAMES = ['a', 'b', 'c', 'dd', 'e1']
KINDS = ['table', 'table', 'plot', 'plot', 'plot', 'lint', 'dims', 'modify', 'facets']


def strategy(tier):
    from hypothesis import strategies as st
    tok = st.one_of(st.integers(-99, 9999).map(str), st.sampled_from(['=', '=', '=', '*', '1.5e-3', 'foo', 'pi/2', "'abc'", '"q"', 'True', '[1,2]', '7']))
    table = st.fixed_dictionaries({'kind': st.just('table'), 'cols': st.lists(st.tuples(st.sampled_from(NAMES + ['!OMP_NUM_THREADS', 'description']), st.booleans()).map(list), min_size=1, max_size=5, unique_by=lambda t: t[0]),
                                   'rows': st.lists(st.lists(tok, min_size=5, max_size=5), min_size=1, max_size=6), 'fill': st.lists(st.sampled_from(['', '', '', '\n', '# note\n', '   \n', '  # = 3\n']), min_size=8, max_size=8),
                                   'tail': st.lists(st.sampled_from(['', '', '', ' # c', '#c = 1', '  ', '\t']), min_size=8, max_size=8), 'sep': st.sampled_from([' ', '\t', '   ']), 'nl': st.booleans(), 'same': st.booleans()})
    num = st.one_of(st.integers(-9, 99), st.integers(-99, 99).map(lambda x: x / 8))
    val = st.one_of(num, num, st.tuples(st.just('v2'), st.lists(num, min_size=2, max_size=2)).map(list), st.tuples(st.just('v3'), st.lists(num, min_size=3, max_size=3)).map(list),
                    st.tuples(st.just('m3'), st.lists(num, min_size=9, max_size=9)).map(list))
    rec = st.dictionaries(st.sampled_from(NAMES), val, max_size=4)
    op = st.one_of(st.tuples(st.sampled_from(['add', 'add', 'adddict', 'both']), rec, rec), st.tuples(st.just('cols'), st.lists(st.sampled_from(NAMES), max_size=3)),
                   st.tuples(st.sampled_from(['split', 'reverse', 'save', 'save'])), st.tuples(st.sampled_from(['resetData', 'reset', 'bad'])), st.tuples(st.just('auto'), st.lists(st.sampled_from(range(7)), min_size=1, max_size=4, unique=True), st.integers(0, 3))).map(list)
    plot = st.fixed_dictionaries({'kind': st.just('plot'), 'ops': st.lists(op, min_size=2, max_size=14), 'vars': st.lists(st.integers(0, 20), max_size=4), 'head': st.dictionaries(st.sampled_from(NAMES), num, max_size=2)})
    lint = st.fixed_dictionaries({'kind': st.just('lint'), 'dx': st.lists(st.integers(1, 40), min_size=1, max_size=6), 'y': st.lists(st.integers(1, 50), min_size=7, max_size=7), 'f': st.integers(1, 999), 'per': st.integers(0, 4), 'pad': st.tuples(st.integers(-20, 20), st.integers(-20, 20)).map(list)})
    c = st.integers(-30, 30).map(lambda x: x / 10)
    v3 = st.tuples(c, c, c).map(list)
    body = st.fixed_dictionaries({'t': st.sampled_from(['s', 's', 's', 's', 'b', 'f', 'c']), 'p': v3, 'q': v3, 'r': st.integers(1, 30).map(lambda x: x / 20), 'mask': st.integers(1, 7), 'fixed': st.booleans(), 'er': st.integers(0, 9)})
    bodies = st.fixed_dictionaries({'kind': st.sampled_from(['dims', 'modify', 'modify', 'facets']), 'bodies': st.lists(body, min_size=2, max_size=8), 'mask': st.sampled_from([-1, -1, 1, 2, 4, 3, 6]), 'how': st.sampled_from(['ids', 'ids', 'bodies', 'mask']), 'sel': st.lists(st.integers(0, 9), min_size=1, max_size=6, unique=True),
                                    'shift': v3, 'scale': st.sampled_from([1., 2., .5, 3.]), 'axis': v3, 'ang': st.integers(-30, 30).map(lambda x: x / 10), 'copy': st.booleans()})
    return st.one_of(table, plot, plot, lint, bodies, bodies)


def run(case):
    import io, contextlib, warnings
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()):
        return {'table': table, 'plot': plot, 'lint': lint}.get(case['kind'], bodies)(case)


def table(case):
    import tempfile, os
    from yade import utils
    cols = case['cols']
    n = len(cols)
    heads = [c + ('!' if bang and c[0] != '!' and c != 'description' else '') for c, bang in cols]
    rows = [r[:n] for r in case['rows']]
    if case['same'] and len(rows) > 1:
        rows[-1] = list(rows[0])
    lines, where = [], {}
    for i, r in enumerate([heads] + rows):
        f = case['fill'][i]
        if f:
            lines.append(f)
        lines.append(case['sep'].join(r) + case['tail'][i] + '\n')
        where[i] = len(lines)
    text = ''.join(lines)
    if not case['nl']:
        text = text[:-1]
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 't.table')
        open(fn, 'w').write(text)
        bad = '=' in rows[0]
        try:
            got = utils.TableParamReader(fn).paramDict()
        except RuntimeError as e:
            check(bad, 'the table\n%s is refused: %s', text, e)
            return {'nt': True, 'labels': ['refused']}
    check(not bad, 'a table whose first line refers to the line before it is accepted:\n%s', text)
    names = [c for c, bang in cols]
    want, prev = {}, None
    for i, r in enumerate(rows):
        cur = {k: (prev[k] if v == '=' else v) for k, v in zip(names, r)}
        want[where[i + 1]] = prev = cur
    check(sorted(got) == sorted(want), 'table\n%s\nlines with parameters are %s, found %s', text, sorted(want), sorted(got))
    bang = [c for (c, b), h in zip(cols, heads) if h[-1] == '!'] or names
    seen = set()
    for l in sorted(want):
        w = dict(want[l])
        if 'description' not in names:
            dd = ','.join(k.replace('!', '') + '=' + w[k] for k in bang).replace("'", '').replace('"', '')
            if dd in seen:
                dd += '__line=%d__' % l
            seen.add(dd)
            w['description'] = dd
        check(dict(got[l]) == w, 'table\n%s\nline %d has %s, found %s', text, l, w, dict(got[l]))
    return {'nt': len(rows) > 1, 'labels': ['table'] + (['eq'] if any('=' in r for r in rows) else [])}


def conv(v):
    from minieigen import Vector2, Vector3, Matrix3
    if isinstance(v, list):
        t, x = v
        return {'v2': Vector2, 'v3': Vector3, 'm3': Matrix3}[t](*[float(y) for y in x])
    return v


def expand(rec):
    out = {}
    for k, v in rec.items():
        if isinstance(v, list):
            t, x = v
            suf = {'v2': 'xy', 'v3': 'xyz', 'm3': ['xx', 'xy', 'xz', 'yx', 'yy', 'yz', 'zx', 'zy', 'zz']}[t]
            for s, y in zip(suf, x):
                out[k + '_' + s] = y
        else:
            out[k] = v
    return out


AUTO = ['O.iter', 'time=O.time', 'n=len(O.bodies)', 'bad=nosuchthing.x', 'O.dt', 'x=1.5*2', 'DICT']


def plot(case):
    import os, tempfile
    from yade import plot as yp, wrapper as w
    O = w.Omega()
    O.reset()
    O.dt = .25
    O.engines = []
    yp.reset()
    cols, n, labels, added = {}, 0, set(), 0
    nan = float('nan')

    def add(rec):
        nonlocal n, added
        for k in rec:
            cols.setdefault(k, [nan] * n)
        for k in cols:
            cols[k].append(rec.get(k, nan))
        # without any column there is nothing to number
        n = len(next(iter(cols.values()))) if cols else 0
        added += 1

    def same(msg):
        check(set(yp.data) == set(cols), '%s: columns are %s, expected %s', msg, sorted(yp.data), sorted(cols))
        for k in cols:
            a, b = list(yp.data[k]), cols[k]
            check(len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b)), '%s: column %s is %s, expected %s', msg, k, a, b)

    for op in case['ops']:
        o = op[0]
        labels.add(o)
        if o in ('add', 'adddict', 'both'):
            r = {k: conv(v) for k, v in op[1].items()}
            if o == 'add':
                yp.addData(**r)
                add(expand(op[1]))
            elif o == 'adddict':
                keys = sorted(r)
                yp.addData(r)
                check(sorted(r) == keys, 'addData changed the dictionary it was given: %s became %s', keys, sorted(r))
                add(expand(op[1]))
            else:
                r2 = {k: conv(v) for k, v in op[2].items()}
                yp.addData(r, **r2)
                m = dict(op[1])
                m.update(op[2])
                add(expand(m))
        elif o == 'cols':
            yp.addDataColumns(op[1])
            for k in op[1]:
                cols.setdefault(k, [nan] * n)
        elif o == 'split':
            yp.splitData()
            add({})
        elif o == 'reverse':
            yp.reverseData()
            for k in cols:
                cols[k].reverse()
        elif o == 'resetData':
            yp.resetData()
            cols, n = {}, 0
        elif o == 'reset':
            yp.plots, yp.labels = {'a': ('b',)}, {'a': 'A'}
            yp.reset()
            check(not yp.plots and not yp.labels and not yp.imgData, 'plot.reset() leaves plots %s, labels %s', yp.plots, yp.labels)
            cols, n = {}, 0
        elif o == 'bad':
            try:
                yp.addData(a=[1, 2, 3])
            except ValueError:
                pass
            else:
                fail('a list is accepted by addData')
        elif o == 'auto':
            for _ in range(op[2]):
                O.step()
            d = {'k1': 4, 'k2': O.iter}
            yy = tuple(d if AUTO[i] == 'DICT' else (AUTO[i], 'r-') if i % 2 else AUTO[i] for i in op[1][1:])
            x = AUTO[op[1][0]]
            if x == 'DICT':
                x, yy = 'O.iter', yy + (None, d)
            yp.plots = {x: yy}
            yp.addAutoData()
            rec = {}
            for y in [x] + [t[0] if isinstance(t, tuple) else t for t in yy]:
                if y is None:
                    continue
                if isinstance(y, dict):
                    rec.update(y)
                else:
                    name = y.split('=')[0]
                    v = {'O.iter': O.iter, 'time': O.time, 'n': 0, 'O.dt': .25, 'x': 3.}
                    if name in v:
                        rec[name] = v[name]
            add(rec)
            yp.plots = {}
        elif o == 'save' and cols:
            names = sorted(cols)
            vs = [names[i % len(names)] for i in dict.fromkeys(case['vars'])]
            vs = list(dict.fromkeys(vs))
            with tempfile.TemporaryDirectory() as d:
                fn = os.path.join(d, 'data.txt')
                yp.saveDataTxt(fn, vars=vs or None, headers=dict(case['head']) or None)
                ll = open(fn).read().split('\n')
            check(ll[-1] == '', 'the last line of the data file is not finished')
            ll = ll[:-1]
            for k, v in case['head'].items():
                check('# %s=\t%s' % (k, v) in ll[:len(case['head'])], 'header %s is not written: %s', k, ll[:3])
            ll = ll[len(case['head']):]
            vs = vs or names
            check(ll[0][0] == '#' and ll[0][1:].split() == vs, 'columns of the data file are %s, expected %s', ll[0], vs)
            check(len(ll) - 1 == n, 'the data file has %d lines for %d records', len(ll) - 1, n)
            for i, l in enumerate(ll[1:]):
                x = [float(t) for t in l.split()]
                check(len(x) == len(vs) and all(eq(a, cols[k][i]) for a, k in zip(x, vs)), 'line %d of the data file is %s, expected %s', i, x, [cols[k][i] for k in vs])
        same(o)
    return {'nt': added > 1 and bool(cols), 'labels': sorted(labels)}


def eq(a, b):
    return a == b or (a != a and b != b)


def lint(case):
    from yade import linterpolation as L
    x = [0.]
    for d in case['dx']:
        x.append(x[-1] + d / 8)
    y = [float(v) / 4 for v in case['y'][:len(x)]]

    def integ(t):
        s = 0.
        for i in range(1, len(x)):
            if t <= x[i - 1]:
                break
            e = min(t, x[i])
            ye = y[i - 1] + (y[i] - y[i - 1]) * (e - x[i - 1]) / (x[i] - x[i - 1])
            s += (e - x[i - 1]) * (y[i - 1] + ye) / 2
        return s
    tot = integ(x[-1])
    check(abs(L.integral(x, y) - tot) <= 1e-12 * tot, 'integral of %s over %s is %g, expected %g', y, x, L.integral(x, y), tot)
    t = x[-1] * case['f'] / 1000
    if min(abs(t - v) for v in x) < 1e-6 * x[-1]:
        raise Reject
    I = integ(t)
    got = L.xFractionalFromIntegral(I, x, y)
    check(abs(got - t) <= 1e-6 * x[-1], 'the integral of %s over %s reaches %g at %g, not %g', y, x, I, t, got)
    got = L.xFromIntegral(I + case['per'] * tot, x, y)
    check(abs(got - t - case['per'] * x[-1]) <= 1e-6 * x[-1] * (1 + case['per']), 'with %d periods: %g, expected %g', case['per'], got, t + case['per'] * x[-1])
    try:
        L.xFractionalFromIntegral(tot * 1.01 + 1, x, y)
    except Exception:
        pass
    else:
        fail('an integral beyond the range is accepted')
    lo, hi = case['pad'][0] / 4, x[-1] + case['pad'][1] / 4
    xx, yy = L.sanitizeInterpolation(list(x), list(y), lo, hi)
    ex, ey = list(x), list(y)
    if lo < x[0]:
        ex, ey = [lo] + ex, [y[0]] + ey
    if hi > x[-1]:
        ex, ey = ex + [hi], ey + [y[-1]]
    check(list(xx) == ex and list(yy) == ey, 'extension of %s,%s to %g..%g is %s,%s', x, y, lo, hi, xx, yy)
    return {'nt': len(x) > 2, 'labels': ['lint']}


def bodies(case):
    import numpy as np
    from yade import wrapper as w, utils, bodiesHandling as B
    from minieigen import Vector3, Quaternion
    O = w.Omega()
    O.reset()
    O.materials.append([w.FrictMat(density=1000, label='m0'), w.FrictMat(density=2500, label='m1')])
    V = lambda v: Vector3(*[float(x) for x in v])
    for b in case['bodies']:
        mat = 'm%d' % (b['mask'] % 2)
        kw = dict(mask=b['mask'], material=mat)
        p, q = np.array(b['p'], float), np.array(b['q'], float)
        if b['t'] == 'f' or case['kind'] == 'facets':
            t3 = p + np.array([.3, 1.1, b['r']])
            if np.linalg.norm(np.cross(q - p, t3 - p)) < 1e-3:
                raise Reject
            O.bodies.append(utils.facet([V(p), V(q), V(t3)], **kw))
        elif b['t'] == 'b':
            O.bodies.append(utils.box(V(p), (b['r'], 1, 2), **kw))
        elif b['t'] == 'c':
            O.bodies.appendClumped([utils.sphere(V(p), b['r'], **kw), utils.sphere(V(p + [b['r'], 0, 0]), b['r'], **kw)])
        else:
            O.bodies.append(utils.sphere(V(p), b['r'], fixed=b['fixed'], color=(.1, .2, .3), wire=b['fixed'], **kw))
    for b, i in zip(case['bodies'], range(len(O.bodies))):
        if b['er'] == 9 and O.bodies[i] is not None and O.bodies[i].isStandalone:
            O.bodies.erase(i)
    mask, kind = case['mask'], case['kind']
    if case['how'] == 'mask':
        if mask < 0:
            mask = 1
        arg, ids = [], [b.id for b in O.bodies if b.mask & mask]
    else:
        ids = list(dict.fromkeys(i % len(O.bodies) for i in case['sel']))
        if case['how'] == 'bodies':
            ids = [i for i in ids if O.bodies[i] is not None]
            arg = [O.bodies[i] for i in ids]
            if not arg:
                raise Reject
        else:
            arg = list(ids)
    isS = lambda i: O.bodies[i] is not None and isinstance(O.bodies[i].shape, w.Sphere)
    ok = lambda i: mask < 0 or O.bodies[i].mask & mask

    def extents(i):
        b = O.bodies[i]
        if isinstance(b.shape, w.Sphere):
            p = np.array(b.state.pos, float)
            return p - b.shape.radius, p + b.shape.radius
        v = np.array([b.state.pos + b.state.ori * t for t in b.shape.vertices], float)
        return v.min(axis=0), v.max(axis=0)

    def compare(d, use):
        check(d['number'] == len(use), '%s: %d bodies counted, expected %d', kind, d['number'], len(use))
        if not use:
            return None
        E = {i: extents(i) for i in use}
        lo, hi = np.min([e[0] for e in E.values()], axis=0), np.max([e[1] for e in E.values()], axis=0)
        for k, v in (('min', lo), ('max', hi), ('center', (lo + hi) / 2), ('extends', hi - lo)):
            check(np.abs(np.array(d[k], float) - v).max() <= 1e-9, '%s: %s is %s, expected %s', kind, k, d[k], v)
        for k, s in (('minId', 0), ('maxId', 1)):
            for a in range(3):
                i = int(d[k][a])
                check(i in E and abs(E[i][s][a] - (lo, hi)[s][a]) <= 1e-9, '%s: %s names body %d for axis %d', kind, k, i, a)
        return (lo + hi) / 2

    if kind in ('dims', 'facets'):
        fn = B.spheresPackDimensions if kind == 'dims' else B.facetsDimensions
        kinds = isS if kind == 'dims' else lambda i: O.bodies[i] is not None
        use = [i for i in ids if kinds(i) and ok(i)]
        try:
            d = fn(arg, mask=mask) if arg or mask >= 0 else None
        except RuntimeWarning:
            check(not arg and len(ids) < 2, '%s: refused for %d bodies', kind, len(ids))
            return {'nt': False, 'labels': ['refused']}
        compare(d, use)
        if kind == 'dims':
            check(abs(d['volume'] - sum(4 / 3 * math.pi * O.bodies[i].shape.radius ** 3 for i in use)) <= 1e-9 * (1 + d['volume']), 'volume is %g', d['volume'])
            check(abs(d['mass'] - sum(O.bodies[i].state.mass for i in use)) <= 1e-9 * (1 + d['mass']), 'mass is %g', d['mass'])
        return {'nt': len(use) > 1, 'labels': [kind, case['how']]}
    # modify
    sp = [i for i in ids if isS(i)]
    use = [i for i in sp if ok(i)]
    if len(sp) != len(use) or not sp or any(O.bodies[i].isClumpMember for i in sp):
        raise Reject   # which bodies define the centre of rotation is only clear when all of them pass the mask
    if case['how'] == 'mask' and len(ids) < 2:
        raise Reject
    c = None
    E = [extents(i) for i in sp]
    c = (np.min([e[0] for e in E], axis=0) + np.max([e[1] for e in E], axis=0)) / 2
    ax = np.array(case['axis'], float)
    if np.linalg.norm(ax) < 1e-6:
        ax = np.array([0., 0, 1])
    q = Quaternion(V(ax / np.linalg.norm(ax)), case['ang'])
    snap = lambda: {b.id: (list(b.state.pos), b.state.mass, list(b.state.inertia), getattr(b.shape, 'radius', None), b.mask, b.dynamic) for b in O.bodies}
    before, n0 = snap(), len(O.bodies)
    r = B.spheresModify(arg, mask=mask, shift=V(case['shift']), scale=case['scale'], orientation=q, copy=case['copy'])
    after = snap()
    want = {}
    R = np.array(q.toRotationMatrix(), float).reshape(3, 3)
    s = case['scale']
    for i in use:
        b = before[i]
        p = (R @ (np.array(b[0]) - c)) * s + c + case['shift']
        want[i] = (p, b[1] * s ** 3, np.array(b[2]) * s ** 5, b[3] * s, b[4])
    check(len(O.bodies) == n0, 'the number of bodies changed')
    if case['copy']:
        check(after == before, 'bodies copied are modified themselves')
        check(len(r) == len(use), '%d copies of %d bodies', len(r), len(use))
        out = [(list(b.state.pos), b.state.mass, list(b.state.inertia), b.shape.radius, b.mask) for b in r]
        for i, b in zip(use, r):
            check(b.material.density == O.bodies[i].material.density and b.shape.wire == O.bodies[i].shape.wire and (b.shape.color - O.bodies[i].shape.color).norm() < 1e-9 and b.dynamic == O.bodies[i].dynamic, 'the copy of body %d has other material, colour, wire or mobility', i)
    else:
        check(r is True, 'spheresModify returned %s', r)
        out = [after[i] for i in use]
        for i in before:
            check(i in want or after[i] == before[i], 'body %d, not selected, is modified', i)
    for i, o in zip(use, out):
        w_ = want[i]
        check(np.abs(np.array(o[0]) - w_[0]).max() <= 1e-8 and abs(o[1] - w_[1]) <= 1e-9 * (w_[1] + 1) and np.abs(np.array(o[2]) - w_[2]).max() <= 1e-9 * (np.abs(w_[2]).max() + 1) and abs(o[3] - w_[3]) <= 1e-9 and o[4] == w_[4],
              'modified body %d is %s, expected %s', i, o, w_)
    return {'nt': len(use) > 1, 'labels': ['modify', case['how'], 'copy' if case['copy'] else 'inplace']}
