"""Solid predicates and regular packings: membership, padding, boolean algebra, bounding boxes, lattice fillings."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when its predicate contains some of the sampled points and excludes others, or a filling returns at least two spheres'
QUICK, THOROUGH = 900, 20000
ASSUMPTIONS = ['inHyperboloid pads perpendicular to the axis and inEllipsoid shortens its radii (as documented in the code); the rule that a padded point keeps its distance from the boundary is checked for trees without them',
               'points closer than 1e-9 to a decision boundary are not judged']
EPS = 1e-9
EXACT = ('sphere', 'box', 'para', 'cyl', 'notch', 'half', 'poly', 'space')


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-20, 20).map(lambda x: x / 10)
    v3 = st.tuples(c, c, c).map(list)
    p = st.integers(2, 20).map(lambda x: x / 10)
    axis = st.sampled_from([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [-1., 0, 0], [0, -2., 0], [0, 0, -1.]])
    d3 = st.one_of(v3, axis)
    leaf = st.one_of(
        st.tuples(st.just('sphere'), v3, p),
        st.tuples(st.just('box'), v3, st.tuples(p, p, p).map(list)),
        st.tuples(st.just('para'), v3, st.tuples(d3, d3, d3).map(list)),
        st.tuples(st.just('cyl'), v3, d3, p),
        st.tuples(st.just('hyp'), v3, d3, p, st.integers(2, 9).map(lambda x: x / 10)),
        st.tuples(st.just('ell'), v3, st.tuples(p, p, p).map(list)),
        st.tuples(st.just('notch'), v3, d3, d3, p),
        st.tuples(st.just('half'), v3, d3),
        st.tuples(st.just('poly'), v3, st.lists(d3, min_size=0, max_size=3), st.tuples(p, p, p).map(list)),
        st.tuples(st.just('space'))).map(list)
    tree = st.recursive(leaf, lambda ch: st.tuples(st.sampled_from(['|', '&', '-', '^']), ch, ch).map(list), max_leaves=4)
    return st.fixed_dictionaries({'tree': tree, 'pts': st.lists(st.tuples(st.integers(-350, 350), st.integers(-350, 350), st.integers(-350, 350)).map(lambda t: [x / 100 + 1e-4 for x in t]), min_size=6, max_size=30),
                                  'pads': st.lists(st.integers(-8, 20).map(lambda x: x / 10 + 1e-5), min_size=2, max_size=3), 'r': st.integers(12, 60).map(lambda x: x / 100), 'gap': st.sampled_from([0., 0., .05, .3]),
                                  'fill': st.sampled_from(['no', 'ortho', 'hexa', 'filter', 'filterb']), 'seed': st.integers(1, 10**6)})


def run(case):
    import numpy as np, warnings, io, contextlib
    warnings.simplefilter('ignore')
    from yade import wrapper as w, utils, pack
    from minieigen import Vector3
    it = pack.SpherePackIterator
    if not hasattr(it, '__next__'):
        it.__next__ = it.next
    V = lambda x: Vector3(*map(float, x))
    A = lambda x: np.array(x, float)
    inf = float('inf')
    margin = [inf]

    def ge(x, y):
        margin[0] = min(margin[0], abs(x - y) / (1 + abs(y)))
        return x >= y

    # each leaf: (yade predicate, model(pt,pad)->bool, exact aabb or None)
    def leaf(t):
        k = t[0]
        if k == 'space':
            return pack.inSpace(), (lambda q, p: True), (A([-inf] * 3), A([inf] * 3))
        o = A(t[1])
        if k == 'sphere':
            R = t[2]
            return pack.inSphere(V(o), R), (lambda q, p: ge(R - p, np.linalg.norm(q - o))), (o - R, o + R)
        if k == 'box':
            s = A(t[2])
            return pack.inAlignedBox(V(o - s), V(o + s)), (lambda q, p: all([ge(s[i] - p, abs(q[i] - o[i])) for i in range(3)])), (o - s, o + s)
        if k == 'ell':
            s = A(t[2])
            def ell(q, p):
                margin[0] = min(margin[0], min(abs(s - p)))
                return bool(p < min(s)) and ge(1., float(((q - o)**2 / (s - p)**2).sum()))
            return pack.inEllipsoid(V(o), V(s)), ell, (o - s, o + s)
        if k == 'para':
            e = [A(x) for x in t[2]]
            vol = np.dot(e[0], np.cross(e[1], e[2]))
            if abs(vol) < .05:
                raise Reject('flat')
            def para(q, p):
                r = []
                for i in range(3):
                    n = np.cross(e[(i + 1) % 3], e[(i + 2) % 3])
                    n = n / np.linalg.norm(n)
                    h = np.dot(e[i], n)
                    x = np.dot(q - o, n) * np.sign(h)
                    r += [ge(x, p), ge(abs(h) - x, p)]
                return all(r)
            cs = A([o + a * e[0] + b * e[1] + c * e[2] for a in (0, 1) for b in (0, 1) for c in (0, 1)])
            return pack.inParallelepiped(V(o), V(o + e[0]), V(o + e[1]), V(o + e[2])), para, (cs.min(0), cs.max(0))
        d = A(t[2]) if k != 'poly' else None
        if k != 'poly':
            L = np.linalg.norm(d)
            if L < .2:
                raise Reject('short')
            u = d / L
        if k in ('cyl', 'hyp'):
            R = t[3]
            n = np.sqrt(np.maximum(0, 1 - u * u)) * R
            bb = (np.minimum(o, o + d) - n, np.maximum(o, o + d) + n)
            def cyl(q, p, rad=None):
                x = np.dot(q - o, u)
                ax = np.linalg.norm(q - o - x * u)
                rr = R if k == 'cyl' else math.sqrt((R * t[4])**2 + (R * R - (R * t[4])**2) * (2 * x / L - 1)**2)
                return all([ge(x, p), ge(L - p, x), ge(rr - p, ax)])
            if k == 'cyl':
                return pack.inCylinder(V(o), V(o + d), R), cyl, bb
            return pack.inHyperboloid(V(o), V(o + d), R, R * t[4]), cyl, bb
        if k == 'notch':
            n = A(t[3])
            n = n - u * np.dot(u, n)
            if np.linalg.norm(n) < .1:
                raise Reject('normal along edge')
            n /= np.linalg.norm(n)
            ins = np.cross(u, n)
            ap = t[4]
            def notch(q, p):
                a, b = -np.dot(ins, q - o), abs(np.dot(n, q - o)) - ap / 2
                if p > 0 and (a > 0 or b > 0):
                    return ge(math.hypot(max(a, 0), max(b, 0)), p)
                return ge(max(a, b), p)
            return pack.notInNotch(V(o), V(d), V(t[3]), ap), notch, (A([-inf] * 3), A([inf] * 3))
        if k == 'half':
            bb = [A([-inf] * 3), A([inf] * 3)]
            for i in range(3):
                if abs(abs(u[i]) - 1) < 1e-15:
                    bb[0 if u[i] > 0 else 1][i] = o[i]
            return pack.inHalfSpace(V(o), V(d)), (lambda q, p: ge(np.dot(u, q - o), p)), tuple(bb)
        if k == 'poly':
            s = A(t[3])
            pl = [(o + s * sg * np.eye(3)[i], -sg * np.eye(3)[i]) for i in range(3) for sg in (1, -1)]
            for e in t[2]:
                e = A(e)
                if np.linalg.norm(e) > .2:
                    pl.append((o - .3 * min(s) * e / np.linalg.norm(e), e))
            def poly(q, p):
                return all([ge(np.dot(n / np.linalg.norm(n), q - c), p) for c, n in pl])
            return pack.inConvexPolyhedron([(V(c), V(n)) for c, n in pl]), poly, 'poly'

    kinds = set()

    def build(t):
        if t[0] in ('|', '&', '-', '^'):
            (pa, ma, ba), (pb, mb, bb) = build(t[1]), build(t[2])
            if t[0] == '|':
                return pa | pb, (lambda q, p: any([ma(q, p), mb(q, p)])), 'hull'
            if t[0] == '&':
                return pa & pb, (lambda q, p: all([ma(q, p), mb(q, p)])), None
            if t[0] == '-':
                return pa - pb, (lambda q, p: all([ma(q, p), not mb(q, -p)])), None
            return pa ^ pb, (lambda q, p: any([all([ma(q, p), not mb(q, -p)]), all([mb(q, p), not ma(q, -p)])])), None
        kinds.add(t[0])
        return leaf(t)

    pred, model, bb = build(case['tree'])
    aabb = [A(x) for x in pred.aabb()]
    ops = case['tree'][0] if case['tree'][0] in '|&-^' else ''
    if not ops and bb is not None and not isinstance(bb, str):
        check(bool(np.all((np.abs(aabb[0] - bb[0]) < 1e-9) | (aabb[0] == bb[0]))) and bool(np.all((np.abs(aabb[1] - bb[1]) < 1e-9) | (aabb[1] == bb[1]))), 'aabb of %s is %s, expected %s', case['tree'], aabb, bb)
    fin = bool(np.all(np.isfinite(aabb[0]) & np.isfinite(aabb[1])))
    if fin:
        check(np.allclose(A(pred.dim()), aabb[1] - aabb[0], atol=1e-9) and (np.allclose(A(pred.center()), (aabb[0] + aabb[1]) / 2, atol=1e-9)), 'dim/center %s %s do not match aabb %s', pred.dim(), pred.center(), aabb)
    rng = np.random.RandomState(case['seed'])
    pts = [A(x) for x in case['pts']]
    if fin and bool(np.all(aabb[1] > aabb[0])):
        # points in and just out of the bounding box
        pts += list(aabb[0] + (rng.uniform(-.1, 1.1, (14, 3))) * (aabb[1] - aabb[0]))
    nin = nout = 0
    exact = all(k in EXACT for k in kinds)
    for q in pts:
        prev = None
        for p in [0.] + sorted(case['pads']):
            margin[0] = inf
            exp = bool(model(q, p))
            if margin[0] < EPS:
                continue
            got = bool(pred(V(q), p))
            check(got == exp, 'predicate %s at %s with pad %s gives %s, should be %s', case['tree'], q.tolist(), p, got, exp)
            nin, nout = nin + got, nout + (not got)
            if p == 0 and got:
                check(bool(np.all(q >= aabb[0] - 1e-9)) and bool(np.all(q <= aabb[1] + 1e-9)), 'point %s is inside %s, but out of its bounding box %s', q.tolist(), case['tree'], aabb)
            if p > 0 and got and exact:
                for s in rng.normal(size=(6, 3)):
                    z = q + s / np.linalg.norm(s) * p * .999
                    check(bool(pred(V(z), 0.)), '%s: %s is inside with pad %s, but %s, at %s from it, is not inside', case['tree'], q.tolist(), p, z.tolist(), p * .999)
    labels = ['leaf:' + k for k in kinds] + (['op:' + ops] if ops else [])
    nt = nin > 0 and nout > 0
    f = case['fill']
    if f != 'no' and fin and bool(np.all(aabb[1] - aabb[0] < 9)):
        O = w.Omega()
        O.reset()
        r, gap = case['r'], case['gap']
        big = float(np.prod(np.maximum(aabb[1] - aabb[0], 0) / r))
        if big > 4000:
            r *= (big / 4000)**(1 / 3.)
        if f in ('ortho', 'hexa'):
            got = (pack.regularOrtho if f == 'ortho' else pack.regularHexa)(pred, radius=r, gap=gap, material=w.FrictMat(density=777.))
            P = [A(b.state.pos) for b in got]
            for b in got:
                check(b.shape.radius == r and b.material.density == 777. and abs(b.state.mass - 777. * 4 / 3 * math.pi * r**3) < 1e-9 * b.state.mass, 'wrong sphere in the filling')
            a = 2 * r + gap
            dim = aabb[1] - aabb[0]
            lat = []
            if f == 'ortho':
                n = [max(0, int(math.ceil(x / a)) + 2) for x in dim]
                lat = [aabb[0] + r + a * A([i, j, k]) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
            else:
                n = [int(dim[0] / a) + 3, int(dim[1] / (a * .866)) + 3, int(dim[2] / (a * .816)) + 3]
                lat = [aabb[0] + a / 2 * A([2 * i + ((j + k) % 2), math.sqrt(3) * (j + (k % 2) / 3.), 2 * math.sqrt(6) / 3 * k]) for i in range(-1, n[0]) for j in range(-1, n[1]) for k in range(n[2])]
            keys = {tuple(np.round(x / r * 1e4).astype(int)) for x in P}
            check(len(keys) == len(P), 'a sphere was created twice')
            want = 0
            for x in lat:
                if np.any(x < aabb[0] - 1e-9) or np.any(x > aabb[1] + 1e-9):
                    continue
                margin[0] = inf
                if f == 'ortho':
                    lim = np.min(aabb[1] - r - x)
                    if abs(lim) < 1e-6:
                        continue
                    if lim < 0:
                        continue
                m = bool(model(x, r))
                if margin[0] < 1e-7:
                    continue
                want += m
                near = min((np.linalg.norm(x - y) for y in P), default=inf) if m != (tuple(np.round(x / r * 1e4).astype(int)) in keys) else (0 if m else inf)
                check((near < 1e-6 * r) == m, '%s filling of %s (r=%s gap=%s): lattice point %s should %sbe occupied', f, case['tree'], r, gap, x.tolist(), '' if m else 'not ')
            if len(P) > 1:
                X = A(P)
                for i in range(len(P)):
                    d = np.linalg.norm(X - X[i], axis=1)
                    d[i] = inf
                    check(d.min() > a - 1e-9, '%s filling: spheres at distance %s, less than 2*radius+gap=%s', f, d.min(), a)
            nt = nt or len(P) > 1
        else:
            sp = pack.SpherePack()
            for x in pts[:30]:
                sp.add(V(x), float(rng.uniform(.05, .4)))
            before = [(A(x[0]), x[1]) for x in sp.toList()]
            shift = A(pred.center()) - A(sp.center())
            with contextlib.redirect_stdout(io.StringIO()):
                got = pack.filterSpherePack(pred, sp, returnSpherePack=(f == 'filter'))
            got = [(A(c), q) for c, q in got.toList()] if f == 'filter' else [(A(b.state.pos), b.shape.radius) for b in got]
            exp = []
            for c, q in before:
                margin[0] = inf
                m = bool(model(c + shift, q))
                if margin[0] < 1e-7:
                    raise Reject('borderline')
                if m:
                    exp.append((c + shift, q))
            check(len(got) == len(exp) and all(np.allclose(a[0], b[0], atol=1e-9) and abs(a[1] - b[1]) < 1e-12 for a, b in zip(got, exp)), 'filterSpherePack kept %s spheres, %s satisfy the predicate', len(got), len(exp))
            nt = nt or len(exp) > 1
        labels.append('fill:' + f)
    return {'nt': bool(nt), 'labels': labels}
