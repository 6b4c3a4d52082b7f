"""SpherePack: generated clouds respect their box, sizes, count and never overlap; transformations, storage and transfer to the simulation keep the packing."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when at least three spheres were generated, or at least two operations were applied to at least two spheres'
QUICK, THOROUGH = 700, 12000
CASE_TIMEOUT = 40
ASSUMPTIONS = ['spheres fit in the box they are generated in (diameter at most half of every nonzero side, or of the shortest height of a periodic cell; closer to the height of the cell, the nearest image of a sphere in a skewed cell is not found by rounding)',
               'packings written to a text file are compared within the 6 digits which are written']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-20, 20).map(lambda x: x / 10)
    v3 = st.tuples(c, c, c).map(list)
    p = st.integers(8, 30).map(lambda x: x / 10)
    e = st.integers(-10, 10).map(lambda x: x / 10)
    psd = st.lists(st.tuples(st.integers(1, 12), st.integers(0, 6)), min_size=1, max_size=4)
    cloud = st.fixed_dictionaries({'kind': st.just('cloud'), 'mn': v3, 'size': st.tuples(p, p, p).map(list), 'flat': st.sampled_from([None, None, None, 0, 1, 2]), 'mode': st.sampled_from(['rmean', 'num', 'psd']),
                                   'num': st.one_of(st.just(-1), st.integers(1, 40)), 'fuzz': st.sampled_from([0., .2, .5, .9]), 'r': st.integers(6, 16).map(lambda x: x / 100), 'peri': st.booleans(), 'skew': st.one_of(st.none(), st.none(), st.lists(e, min_size=9, max_size=9)),
                                   'poro': st.sampled_from([.3, .5, .65, .9]), 'psd': psd, 'dm': st.booleans(), 'seed': st.integers(1, 10**6), 'pre': st.lists(st.tuples(v3, st.integers(5, 30).map(lambda x: x / 100)), max_size=3)})
    sph = st.tuples(v3, st.integers(10, 60).map(lambda x: x / 100))
    clump = st.fixed_dictionaries({'kind': st.just('clump'), 'mn': v3, 'size': st.tuples(p, p, p).map(list), 'clumps': st.lists(st.lists(sph, min_size=1, max_size=4), min_size=1, max_size=3), 'off': v3, 'peri': st.booleans(), 'num': st.one_of(st.just(-1), st.integers(1, 12)), 'seed': st.integers(1, 10**6), 'sc': st.integers(5, 12).map(lambda x: x / 100)})
    op = st.one_of(st.tuples(st.just('add'), v3, st.integers(10, 60).map(lambda x: x / 100)), st.tuples(st.just('translate'), v3), st.tuples(st.just('rotate'), v3, c), st.tuples(st.just('scale'), st.sampled_from([.5, 2., -1., 1.3])),
                   st.tuples(st.just('repeat'), st.integers(0, 2), st.integers(1, 2), st.integers(1, 3)), st.tuples(st.just('fill'), st.tuples(p, p, p).map(list)), st.tuples(st.just('saveload')), st.tuples(st.just('list')), st.tuples(st.just('lists')),
                   st.tuples(st.just('cell'), st.tuples(p, p, p).map(list)), st.tuples(st.just('sim'), v3, c), st.tuples(st.just('query'), st.integers(1, 7)), st.tuples(st.just('loadother'))).map(list)
    hist = st.fixed_dictionaries({'kind': st.just('hist'), 'init': st.lists(st.tuples(v3, st.integers(10, 60).map(lambda x: x / 100), st.integers(-1, 2)), max_size=6), 'ops': st.lists(op, min_size=1, max_size=7)})
    return st.one_of(cloud, cloud, clump, hist, hist)


def overlap(np, P, R, H=None, group=None):
    """smallest relative gap between spheres (of different groups), over all periodic images"""
    P, R = np.array(P, float), np.array(R, float)
    worst, who = np.inf, None
    if H is None:
        shifts = np.zeros((1, 3))
    else:
        # enough images for skewed cells: reduce the difference first, then look around
        Hi = np.linalg.inv(H)
        rng = 3
        g = np.arange(-rng, rng + 1)
        shifts = np.array([[a, b, c] for a in g for b in g for c in g], float) @ H.T
    for i in range(len(P)):
        d = P[i + 1:] - P[i]
        if not len(d):
            break
        if H is not None:
            s = d @ Hi.T
            d = (s - np.round(s)) @ H.T
        dist = np.sqrt(((d[:, None, :] + shifts[None, :, :])**2).sum(2)).min(1) - R[i] - R[i + 1:]
        if group is not None:
            dist[np.array(group[i + 1:]) == group[i]] = np.inf
        k = int(np.argmin(dist))
        if dist[k] < worst:
            worst, who = float(dist[k]), (i, i + 1 + k)
    return worst, who


def run(case):
    import numpy as np, warnings
    warnings.simplefilter('ignore')
    from yade import pack
    it = pack.SpherePackIterator
    if not hasattr(it, '__next__'):
        it.__next__ = it.next
    return {'cloud': cloud, 'clump': clump, 'hist': hist}[case['kind']](case, np, pack)


def items(sp, np):
    return [(np.array(t[0], float), t[1], t[2] if len(t) > 2 else -1) for t in sp.toList()]


def cloud(case, np, pack):
    from minieigen import Vector3, Matrix3
    V = lambda x: Vector3(*map(float, x))
    mn, size = np.array(case['mn']), np.array(case['size'])
    peri = case['peri']
    H = None
    kw = {}
    if case['flat'] is not None:
        size[case['flat']] = 0
    if peri and case['skew'] is not None and case['flat'] is None:
        H = np.diag(size) + np.array(case['skew']).reshape(3, 3)
        vol = np.linalg.det(H)
        if vol < .4:
            raise Reject('flat cell')
        kw['hSize'] = Matrix3(*H.flatten())
        hts = [vol / np.linalg.norm(np.cross(H[:, (i + 1) % 3], H[:, (i + 2) % 3])) for i in range(3)]
    else:
        hts = [x for x in size if x > 0]
    area = size[0] * size[1] + size[1] * size[2] + size[0] * size[2]
    vol = np.linalg.det(H) if H is not None else np.prod(size)
    flat = case['flat'] is not None
    num, fz, r, por = case['num'], case['fuzz'], case['r'], case['poro']
    cap = min(hts) / 4
    rmax = None
    case = dict(case, pre=[(c, min(q, cap)) for c, q in case['pre']])
    if case['mode'] == 'rmean':
        r = min(r, cap / (1 + fz))
        kw.update(rMean=r, rRelFuzz=fz, distributeMass=case['dm'] and fz > 0)
        rmin, rmax = r * (1 - fz), r * (1 + fz)
        if num < 0 and vol / (rmin if case['dm'] else r)**3 > 4000:
            num = 30
    elif case['mode'] == 'num':
        num = abs(num) if num != -1 else 7
        m0 = (area * (1 - por) / (math.pi * (1 + fz * fz) * num))**.5 if flat else (vol * (1 - por) / (4 / 3 * math.pi * (1 + fz * fz) * num))**(1 / 3.)
        if m0 * (1 + fz) > cap:
            raise Reject('spheres larger than the box')
        kw.update(rRelFuzz=fz, porosity=por, distributeMass=case['dm'] and fz > 0)
    else:
        ds, cs = [case['r']], [0.]
        for a, b in case['psd']:
            ds.append(ds[-1] + a / 100)
            cs.append(cs[-1] + b)
        if cs[-1] == 0:
            cs[-1] = 1
        cs = [x / cs[-1] for x in cs]
        f = min(1, 2 * cap / ds[-1])
        ds = [x * f for x in ds]
        kw.update(psdSizes=ds, psdCumm=cs, distributeMass=case['dm'], porosity=por)
        if num < 0 and vol / ds[0]**3 > 500:
            num = 30
    kw.update(num=num, periodic=peri, seed=case['seed'])
    sp = pack.SpherePack()
    for c, q in case['pre']:
        sp.add(V(c), q)
    n0 = len(sp)
    pre = items(sp, np)
    n = sp.makeCloud(V(mn), V(mn + size), **kw)
    got = items(sp, np)
    desc = 'makeCloud(%s,%s,%s)' % (mn.tolist(), (mn + size).tolist(), {k: v for k, v in kw.items()})
    check(n == len(got) - n0, '%s returned %s, but created %s spheres', desc, n, len(got) - n0)
    check(all(np.all(a[0] == b[0]) and a[1] == b[1] for a, b in zip(pre, got)), '%s did not keep the spheres which were in the packing', desc)
    new = got[n0:]
    if num > 0:
        check(n <= num, '%s created more than num spheres', desc)
        if case['mode'] != 'rmean':
            check(n == num, '%s created %s spheres', desc, n)
    check(bool(sp.isPeriodic) == peri, 'isPeriodic is %s', sp.isPeriodic)
    cell = np.array(sp.cellSize, float)
    if peri and not flat and H is None:
        check(np.array_equal(cell, (mn + size) - mn) or np.allclose(cell, size, rtol=1e-14), 'cellSize is %s, the box is %s', cell, size)
    elif not peri:
        check(not cell.any(), 'cellSize is %s in an aperiodic packing', cell)
    # containment
    for c, q, i in new:
        for ax in range(3):
            if H is None:
                if size[ax] == 0:
                    check(c[ax] == mn[ax], '%s: sphere out of plane %s', desc, c)
                else:
                    m = 0 if peri else q
                    check(mn[ax] + m - 1e-9 <= c[ax] <= mn[ax] + size[ax] - m + 1e-9, '%s: sphere %s r=%s out of the box', desc, c, q)
        if H is not None:
            s = np.linalg.inv(H) @ (c - mn)
            check(np.all(s > -1e-9) and np.all(s < 1 + 1e-9), '%s: sphere %s out of the cell', desc, c)
    # overlaps among new spheres and of new with old spheres
    if new:
        HH = H if H is not None else (np.diag(np.where(size > 0, size, 1e6)) if peri else None)
        g = [-1] * n0 + list(range(n)) if n0 else None
        worst, who = overlap(np, [x[0] for x in got], [x[1] for x in got], HH, g)
        check(worst > -1e-9, '%s: spheres %s overlap by %s', desc, [(got[i][0].tolist(), got[i][1]) for i in who or ()], -worst)
    # sizes
    rr = np.array([x[1] for x in new])
    cdf = None
    if case['mode'] == 'num':
        mean = None
        for k in range(200):
            pk = 1 - (1 - por) * .9**k
            m = (area * (1 - pk) / (math.pi * (1 + fz * fz) * num))**.5 if flat else (vol * (1 - pk) / (4 / 3 * math.pi * (1 + fz * fz) * num))**(1 / 3.)
            # spheres are placed from large to small, the first quantile is known
            if rr.min() >= m * (1 - fz) * (1 - 1e-9) and rr.max() <= m * (1 + fz) * (1 + 1e-9) and rr.max() >= m * (1 + fz * (1 - 3. / num)) * (1 - 1e-9) - (m * fz * 2 if kw['distributeMass'] else 0):
                mean = m
                break
        check(mean is not None, '%s: radii %s..%s do not correspond to the porosity, nor to an increased one', desc, rr.min(), rr.max())
        rmin, rmax = mean * (1 - fz), mean * (1 + fz)
    if case['mode'] in ('rmean', 'num'):
        check(len(rr) == 0 or (rr.min() >= rmin * (1 - 1e-9) and rr.max() <= rmax * (1 + 1e-9)), '%s: radii %s..%s out of %s..%s', desc, rr.min() if len(rr) else 0, rr.max() if len(rr) else 0, rmin, rmax)
        if fz > 0 and rmin > 0:
            cdf = (lambda x: (rmin**-2 - x**-2) / (rmin**-2 - rmax**-2)) if kw['distributeMass'] else (lambda x: (x - rmin) / (rmax - rmin))
    else:
        s = sp.appliedPsdScaling if num > 1 else 1.
        check(0 < s <= 1, 'appliedPsdScaling %s', s)
        if num > 1:
            V1 = vol if vol else area * ds[-1]
            if case['dm']:
                # number of spheres per unit solid volume for mass fractions uniform in diameter
                N1 = sum(6 / math.pi * (cs[i] - cs[i - 1]) / (ds[i] - ds[i - 1]) * (ds[i - 1]**-2 - ds[i]**-2) / 2 for i in range(1, len(ds)))
                full = num / N1
            else:
                full = num * sum((cs[i] - cs[i - 1]) * math.pi / 6 * (ds[i]**4 - ds[i - 1]**4) / 4 / (ds[i] - ds[i - 1]) for i in range(1, len(ds)))
            ok = any(abs(s - min(1., (V1 * (1 - por) * .9**k / full)**(1 / 3.))) < 1e-9 for k in range(200))
            check(ok, '%s: appliedPsdScaling=%s, num spheres would take %s in volume %s', desc, s, full, V1)
        sd = [x * s / 2 for x in ds]
        check(len(rr) == 0 or (rr.min() >= sd[0] * (1 - 1e-9) and rr.max() <= sd[-1] * (1 + 1e-9)), '%s: radii %s out of the size distribution %s', desc, rr, sd)
        if case['dm']:
            w = [(cs[i] - cs[i - 1]) / (sd[i] - sd[i - 1]) for i in range(1, len(sd))]
            cum = [0.]
            for i in range(1, len(sd)):
                cum.append(cum[-1] + w[i - 1] * (sd[i - 1]**-2 - sd[i]**-2))
            def cdf(x):
                t = 0
                for i in range(1, len(sd)):
                    if x > sd[i - 1]:
                        t += w[i - 1] * (sd[i - 1]**-2 - min(x, sd[i])**-2)
                return t / cum[-1]
        else:
            cdf = lambda x: float(np.interp(x, sd, cs))
    if num > 1 and n == num and cdf is not None:
        srt = np.sort(rr)
        for k, x in enumerate(srt):
            # k spheres are smaller than x
            check(abs(cdf(x) - (k + .5) / n) < 1.6 / n, '%s: %s of %s spheres are smaller than %s, the distribution says %s', desc, k, n, x, cdf(x))
    # same seed, same packing; whatever was generated before
    sp2 = pack.SpherePack()
    sp2.makeCloud((0, 0, 0), (1, 1, 1), rMean=.2, num=2)
    sp2 = pack.SpherePack()
    for c, q in case['pre']:
        sp2.add(V(c), q)
    sp2.makeCloud(V(mn), V(mn + size), **kw)
    g2 = items(sp2, np)
    check(len(g2) == len(got) and all(np.array_equal(a[0], b[0]) and a[1] == b[1] for a, b in zip(got, g2)), '%s: the same seed gives different packings', desc)
    return {'nt': n >= 3, 'labels': ['cloud:' + case['mode']] + (['peri'] if peri else []) + (['skew'] if H is not None else []) + (['2d'] if flat else []) + (['mass'] if kw['distributeMass'] else []) + (['retry'] if num > 0 and case['mode'] == 'num' and abs(mean - m0) > 1e-12 else [])}


def congruent(np, a, b):
    if len(a) != len(b) or not np.allclose([x[1] for x in a], [x[1] for x in b], rtol=1e-9):
        return False
    A, B = np.array([x[0] for x in a]), np.array([x[0] for x in b])
    return np.allclose(np.linalg.norm(A[:, None] - A[None], axis=2), np.linalg.norm(B[:, None] - B[None], axis=2), atol=1e-9)


def clump(case, np, pack):
    from minieigen import Vector3
    V = lambda x: Vector3(*map(float, x))
    mn, size, sc = np.array(case['mn']), np.array(case['size']), case['sc']
    tmpl = [[(np.array(c) * sc, q * sc) for c, q in cl] for cl in case['clumps']]
    dia = max(max(np.linalg.norm(a[0] - b[0]) + a[1] + b[1] for a in t for b in t) for t in tmpl)
    if dia * 2 > min(size):
        raise Reject('clump larger than half of the box')
    def gen(off):
        ps = []
        for t in tmpl:
            s = pack.SpherePack()
            for c, q in t:
                s.add(V(c + off), q)
            ps.append(s)
        sp = pack.SpherePack()
        n = sp.makeClumpCloud(V(mn), V(mn + size), ps, periodic=case['peri'], num=case['num'] if case['num'] > 0 else (-1 if size.prod() / min(sum(4 * x[1]**3 for x in t) for t in tmpl) < 500 else 9), seed=case['seed'])
        return sp, n
    sp, n = gen(np.zeros(3))
    got = items(sp, np)
    desc = 'makeClumpCloud(%s,%s,periodic=%s,num=%s)' % (mn, mn + size, case['peri'], case['num'])
    ids = [g[2] for g in got]
    check(sorted(set(ids)) == list(range(n)), '%s returned %s, clump ids are %s', desc, n, sorted(set(ids)))
    check(n >= 1, '%s: no clump fits in a box twice its size', desc)
    if case['num'] > 0:
        check(n <= case['num'], 'too many clumps')
    for i in range(n):
        me = [g for g in got if g[2] == i]
        check(any(congruent(np, me, t) for t in tmpl), '%s: clump %s is no copy of a template', desc, me)
    if not case['peri']:
        for c, q, i in got:
            check(np.all(c - q >= mn - 1e-9) and np.all(c + q <= mn + size + 1e-9), '%s: sphere %s r=%s out of the box', desc, c, q)
    worst, who = overlap(np, [g[0] for g in got], [g[1] for g in got], np.diag(size) if case['peri'] else None, ids)
    check(worst > -1e-9, '%s: spheres of different clumps overlap by %s', desc, -worst)
    check(bool(sp.isPeriodic) == case['peri'] and np.allclose(np.array(sp.cellSize, float), size if case['peri'] else 0), '%s: periodicity of the result %s %s', desc, sp.isPeriodic, sp.cellSize)
    sp2, n2 = gen(np.array(case['off']) * 10)
    g2 = items(sp2, np)
    check(n2 == n and all(np.allclose(a[0], b[0], atol=1e-7) and a[1:] == b[1:] for a, b in zip(got, g2)), '%s: with the same seed, the packing depends on the origin of the template (%s clumps, %s when shifted)', desc, n, n2)
    st, cl = sp.getClumps()
    check(list(st) == [] and [list(x) for x in cl] == [[k for k in range(len(got)) if ids[k] == i] for i in range(n)], 'getClumps')
    return {'nt': len(got) >= 3, 'labels': ['clumpcloud'] + (['peri'] if case['peri'] else [])}


def hist(case, np, pack):
    import os, tempfile
    from yade import wrapper as w
    from minieigen import Vector3, Quaternion
    V = lambda x: Vector3(*map(float, x))
    sp = pack.SpherePack([(V(c), q, k) if k >= 0 else (V(c), q) for c, q, k in case['init']])
    m = [[np.array(c, float), q, k] for c, q, k in case['init']]
    cell, isP = np.zeros(3), False
    nops = 0

    def bb():
        P, R = np.array([x[0] for x in m]), np.array([x[1] for x in m])[:, None]
        return (P - R).min(0), (P + R).max(0)

    def same(tol=1e-9):
        got = items(sp, np)
        check(len(sp) == len(m) == len(got), 'after %s: %s spheres, expected %s', case['ops'][:nops + 1], len(got), len(m))
        for a, b in zip(got, m):
            check(np.allclose(a[0], b[0], rtol=tol, atol=tol) and abs(a[1] - b[1]) <= tol * (1 + b[1]) and a[2] == b[2], 'after %s: sphere %s, expected %s', case['ops'][:nops + 1], a, b)
        check(np.allclose(np.array(sp.cellSize, float), cell, rtol=tol, atol=tol) and bool(sp.isPeriodic) == isP, 'after %s: cellSize %s isPeriodic %s, expected %s %s', case['ops'][:nops + 1], sp.cellSize, sp.isPeriodic, cell, isP)
        for i, (c, r) in enumerate(sp):
            t = sp[i]
            check(np.array_equal(np.array(c, float), np.array(t[0], float)) and r == t[1] and np.array_equal(np.array(c, float), got[i][0]), 'iteration and indexing differ')

    labels = []
    for op in case['ops']:
        k = op[0]
        labels.append('op:' + k)
        tol = 1e-9
        if k == 'add':
            sp.add(V(op[1]), op[2])
            m.append([np.array(op[1]), op[2], -1])
        elif k == 'translate':
            sp.translate(V(op[1]))
            m = [[c + np.array(op[1]), r, i] for c, r, i in m]
        elif k == 'rotate':
            ax = np.array(op[1])
            if not m or np.linalg.norm(ax) < .1:
                continue
            ax = ax / np.linalg.norm(ax)
            a, b = bb()
            mid = (a + b) / 2
            K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
            R = np.eye(3) + math.sin(op[2]) * K + (1 - math.cos(op[2])) * K @ K
            sp.rotate(V(ax), op[2])
            m = [[R @ (c - mid) + mid, r, i] for c, r, i in m]
            cell = np.zeros(3)
        elif k == 'scale':
            if not m:
                continue
            a, b = bb()
            mid = (a + b) / 2
            sp.scale(op[1])
            m = [[op[1] * (c - mid) + mid, r * abs(op[1]), i] for c, r, i in m]
            cell = cell * op[1]
        elif k in ('repeat', 'fill'):
            if not np.all(cell > 0):
                if not cell.any():
                    try:
                        sp.cellRepeat((1, 1, 1)) if k == 'repeat' else None
                        if k == 'repeat':
                            fail('cellRepeat accepted for a packing without cell')
                    except RuntimeError:
                        pass
                continue
            n = [1, 1, 1]
            if k == 'repeat':
                n[op[1]], n[(op[1] + 1) % 3] = op[3], op[2]
            else:
                n = [int(math.ceil(v / c)) for v, c in zip(op[1], cell)]
                if any(abs(v / c - round(v / c)) < 1e-9 for v, c in zip(op[1], cell)):
                    continue
            if len(m) * np.prod(n) > 400 or not m:
                continue
            if k == 'repeat':
                sp.cellRepeat(tuple(n))
            else:
                sp.cellFill(V(op[1]))
            from minieigen import Vector3i
            step = max([x[2] for x in m] + [-1]) + 1
            new, cp = list(m), 0
            for i in range(n[0]):
                for j in range(n[1]):
                    for l in range(n[2]):
                        if i or j or l:
                            cp += 1
                            new += [[c + np.array([i, j, l]) * cell, r, x if x < 0 else x + cp * step] for c, r, x in m]
            # copies may come in any order
            got = items(sp, np)
            key = lambda t: (round(float(t[1]), 6), round(float(t[0][0]), 5), round(float(t[0][1]), 5), round(float(t[0][2]), 5))
            check(len(got) == len(new), 'cell repeated %s times: %s spheres, expected %s', n, len(got), len(new))
            X, Y = np.array([g[0] for g in got]), np.array([g[0] for g in new])
            for y, (c, r, x) in zip(Y, new):
                d = np.linalg.norm(X - y, axis=1)
                hit = [g for g, e in zip(got, d) if e < 1e-8 and abs(g[1] - r) < 1e-9]
                check(hit, 'cell repeated %s times: no sphere at %s r=%s', n, y, r)
                check(any((h[2] < 0) == (x < 0) for h in hit), 'cell repeated %s times: clump membership lost', n)
            # groups: same partition into clumps
            ng = len(set(x[2] for x in got if x[2] >= 0))
            check(ng == len(set(x[2] for x in new if x[2] >= 0)), 'cell repeated %s times: %s clumps', n, ng)
            m = [[g[0], g[1], g[2]] for g in got]
            cell = cell * np.array(n)
            if k == 'fill':
                check(np.all(cell >= np.array(op[1]) - 1e-9), 'cellFill does not fill')
        elif k == 'cell':
            cell = np.array(op[1])
            sp.cellSize = V(cell)
            sp.isPeriodic = isP = True
        elif k in ('saveload', 'loadother'):
            d = tempfile.mkdtemp()
            try:
                fn = os.path.join(d, 'p.txt')
                if k == 'saveload':
                    sp.save(fn)
                    sp = pack.SpherePack()
                    tol = 2e-5
                else:
                    o = pack.SpherePack([(V((1, 2, 3)), .5)])
                    o.save(fn)
                    m, cell = [[np.array([1., 2, 3]), .5, -1]], np.zeros(3)
                sp.load(fn)
                isP = bool(cell.any())
            finally:
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
        elif k == 'list':
            sp = pack.SpherePack(sp.toList())
            cell, isP = np.zeros(3), False
        elif k == 'lists':
            sp.fromList([x[0] for x in sp], [x[1] for x in sp])
            m = [[c, r, -1] for c, r, i in m]
            cell, isP = np.zeros(3), False
        elif k == 'sim':
            if any(c < 0 for c in cell):
                continue
            O = w.Omega()
            O.reset()
            ax = np.array(op[1])
            ax = ax / np.linalg.norm(ax) if np.linalg.norm(ax) > .1 else np.array([0, 0, 1.])
            q = Quaternion(V(ax), op[2])
            K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
            R = np.eye(3) + math.sin(op[2]) * K + (1 - math.cos(op[2])) * K @ K
            ids = sp.toSimulation(rot=q, color=(1, 0, 0), material=w.FrictMat(density=321.))
            groups = {}
            for i, x in enumerate(m):
                if x[2] >= 0:
                    groups.setdefault(x[2], []).append(i)
            check(len(ids) == len(m) + len(groups) and len(O.bodies) == len(ids), 'toSimulation returned %s ids for %s spheres in %s clumps', len(ids), len(m), len(groups))
            if isP and cell.any():
                Hm = np.array([[O.cell.hSize[i, j] for j in range(3)] for i in range(3)])
                check(O.periodic and np.allclose(Hm, R @ np.diag(cell)), 'toSimulation: cell is %s', Hm)
            else:
                check(O.periodic == isP, 'toSimulation: O.periodic=%s', O.periodic)
            for i, x in enumerate(m):
                b = O.bodies[ids[i]]
                check(np.allclose(np.array(b.state.pos, float), R @ x[0], atol=1e-9) and abs(b.shape.radius - x[1]) < 1e-12 and abs(b.material.density - 321) < 1e-9, 'toSimulation: body %s at %s r=%s, sphere is %s', i, b.state.pos, b.shape.radius, x)
                mates = [j for j in range(len(m)) if O.bodies[ids[j]].clumpId == b.clumpId] if b.isClumpMember else [i]
                check((x[2] >= 0) == b.isClumpMember and (x[2] < 0 or mates == groups[x[2]]), 'toSimulation: sphere %s is clumped with %s', i, mates)
            sp = pack.SpherePack([(V((7, 7, 7)), 1.)])
            sp.cellSize = V((1, 1, 1))
            sp.fromSimulation()
            got = items(sp, np)
            check(len(got) == len(m), 'fromSimulation')
            gid = {}
            for i, (a, x) in enumerate(zip(got, m)):
                check((a[2] >= 0) == (x[2] >= 0) and gid.setdefault(x[2], a[2]) == a[2], 'fromSimulation: clumps are not those of the simulation')
                x[0], x[2] = R @ x[0], a[2]
            check(len(set(gid.values())) == len(gid), 'fromSimulation merged clumps')
            if not (isP and cell.any()):
                cell = np.array(O.cell.size, float) if isP else np.zeros(3)
        elif k == 'query' and m:
            a, b = bb()
            ga = [np.array(x, float) for x in sp.aabb()]
            check(np.allclose(ga[0], a) and np.allclose(ga[1], b) and np.allclose(np.array(sp.dim(), float), b - a) and np.allclose(np.array(sp.center(), float), (a + b) / 2), 'aabb/dim/center %s, expected %s %s', ga, a, b)
            V3 = 4 / 3 * math.pi * sum(x[1]**3 for x in m)
            check(abs(sp.relDensity() - V3 / np.prod(b - a)) < 1e-9 * (1 + V3 / np.prod(b - a)), 'relDensity %s', sp.relDensity())
            check(bool(sp.hasClumps()) == any(x[2] >= 0 for x in m), 'hasClumps')
            sa, cl = sp.getClumps()
            exp = {}
            for i, x in enumerate(m):
                exp.setdefault(x[2], []).append(i)
            check(list(sa) == exp.get(-1, []) and sorted(list(x) for x in cl) == sorted(v for k2, v in exp.items() if k2 >= 0), 'getClumps %s %s', sa, cl)
            for mass in (True, False):
                ed, cu = sp.psd(bins=op[1], mass=mass)
                ed, cu = list(ed), list(cu)
                D = np.array([2 * x[1] for x in m])
                wgt = D**3 / (D**3).sum() if mass else np.ones(len(D)) / len(D)
                lo, hi = (D.min() - .5, D.max() + .5) if D.min() == D.max() else (D.min(), D.max())
                check(len(ed) == len(cu) == op[1] + 1 and abs(ed[0] - lo) < 1e-9 and abs(ed[-1] - hi) < 1e-9 and cu[0] == 0 and abs(cu[-1] - 1) < 1e-9, 'psd %s %s', ed, cu)
                for x, y in zip(ed[1:-1], cu[1:-1]):
                    loW, hiW = wgt[D < x - 1e-9].sum(), wgt[D < x + 1e-9].sum()
                    check(loW - 1e-9 <= y <= hiW + 1e-9, 'psd: %s smaller than %s, expected %s', y, x, loW)
        same(tol)
        m = [[a, b, c] for a, b, c in items(sp, np)]
        cell = np.array(sp.cellSize, float)
        nops += 1
    return {'nt': nops >= 2 and len(m) >= 2, 'labels': labels}
