"""Aggregate measures (volumes, stresses, momenta, profiles, contact counts) agree with sums over bodies and contacts."""
from ylib import check, fail, Reject
from geom import qmat
import math

RULE = 'a case is non-trivial when at least two bodies are in contact with a nonzero force'
QUICK, THOROUGH = 500, 30000
ASSUMPTIONS = ['depth profiles are checked in open scenes and, for the stress profile, without clumps; voxelPorosity is checked within the volume of the voxels cut by a sphere']


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-100, 100).map(lambda x: x / 100)
    v3 = st.tuples(c, c, c).map(list)
    body = st.fixed_dictionaries({'kind': st.sampled_from(['s', 's', 's', 's', 's', 'f', 'b', 'c']), 'pos': v3, 'pts': st.lists(v3, min_size=3, max_size=3), 'r': st.integers(20, 70).map(lambda x: x / 100), 'vel': v3, 'ang': v3,
                                  'q': st.tuples(c, c, c, c).map(list), 'mask': st.integers(1, 7), 'fixed': st.sampled_from([0, 0, 0, 1]), 'mat': st.integers(0, 1)})
    e = st.integers(-7, 7).map(lambda x: x / 8)
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=2, max_size=9), 'cell': st.one_of(st.none(), st.none(), st.lists(e, min_size=9, max_size=9)), 'grad': st.lists(e, min_size=9, max_size=9), 'steps': st.integers(1, 4), 'erase': st.one_of(st.none(), st.integers(0, 8)),
                                  'axis': st.integers(0, 2), 'mask': st.sampled_from([-1, 0, 1, 2, 4, 3]), 'pt': v3, 'dir': v3, 'box': st.tuples(v3, v3), 'cut': st.sampled_from([0., .2, .5]), 'centers': st.booleans(), 'gravity': st.one_of(st.just([0., 0., 0.]), v3),
                                  'ncell': st.integers(1, 6), 'dz': st.integers(10, 80).map(lambda x: x / 100), 'zref': c, 'vol': st.sampled_from([0., 2.5]), 'op': st.sampled_from(['none', 'calm', 'friction', 'grow', 'grow1', 'shift', 'ref', 'vert']),
                                  'mult': st.sampled_from([.9, 1.1, 2.]), 'dyn': st.booleans(), 'upm': st.booleans(), 'voxel': st.integers(0, 15), 'thr': st.sampled_from([None, 0., -5.])})


def run(case):
    import numpy as np
    from yade import wrapper as w, utils
    from minieigen import Vector3, Quaternion, Matrix3
    O = w.Omega()
    O.reset()
    V = lambda x: Vector3(*map(float, x))
    A = lambda x: np.array(x, float)
    M = lambda m: np.array([[m[i, j] for j in range(3)] for i in range(3)])
    mats = [O.materials.append(w.FrictMat(young=1e4, poisson=.3, density=1000, frictionAngle=.3)), O.materials.append(w.FrictMat(young=3e3, poisson=.2, density=2000, frictionAngle=.6))]
    peri = case['cell'] is not None
    if peri:
        sk = A(case['cell']).reshape(3, 3)
        H = np.eye(3) + .25 * sk
        if np.linalg.det(H) < .4:
            H = np.eye(3) + .1 * sk
        O.periodic = True
        O.cell.hSize = Matrix3(*(H * 3.2).flatten())
        O.cell.velGrad = Matrix3(*[x * .3 for x in case['grad']])
    clumps = []
    top = []
    for d in case['bodies']:
        k = d['kind']
        p = A(d['pos']) * (1.6 if peri else 1)
        if peri:
            d = dict(d, r=d['r'] * .5)
        pts = [A(x) for x in d['pts']]
        if k in 'fb' and peri:
            k = 's'
        if k == 'f' and np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0])) < .1:
            k = 's'
        if k == 's':
            i = O.bodies.append(utils.sphere(V(p), d['r'], material=mats[d['mat']], fixed=bool(d['fixed']), mask=d['mask']))
        elif k == 'f':
            i = O.bodies.append(utils.facet([V(p + x) for x in pts], material=mats[d['mat']], mask=d['mask']))
            q = Quaternion(*d['q'])
            if q.norm() > .1:
                q.normalize()
                O.bodies[i].state.ori = q
        elif k == 'b':
            i = O.bodies.append(utils.box(V(p + A([0, 0, -1.5])), Vector3(.7, .8, .4), material=mats[d['mat']], fixed=True, mask=d['mask']))
        else:
            i, mem = O.bodies.appendClumped([utils.sphere(V(p + .4 * x), d['r'] * .6, material=mats[d['mat']], mask=d['mask']) for x in pts])
            O.bodies[i].mask = d['mask']
            clumps.append(i)
        b = O.bodies[i]
        if k in 'sc':
            b.state.vel, b.state.angVel = V(d['vel']), V(d['ang'])
            if b.aspherical:
                R = qmat(b.state.ori)
                b.state.angMom = V(R @ (A(b.state.inertia) * (R.T @ A(d['ang']))))
        top.append((i, k))
    if case['erase'] is not None and len(top) > 2:
        i, k = top.pop(case['erase'] % len(top))
        O.bodies.erase(i, True) if k == 'c' else O.bodies.erase(i)
        clumps = [c for c in clumps if c != i]
    before = []
    w.vp_unb = lambda: before.append((utils.unbalancedForce(), len([1 for I in O.interactions if I.isReal])))
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(), w.Bo1_Facet_Aabb(), w.Bo1_Box_Aabb()], verletDist=.05),
                 w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(), w.Ig2_Facet_Sphere_ScGeom(), w.Ig2_Box_Sphere_ScGeom()], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack()]),
                 w.PyRunner(command='import yade.wrapper; yade.wrapper.vp_unb()', iterPeriod=1), w.NewtonIntegrator(damping=0, gravity=V(case['gravity']))]
    O.dt = 1e-3
    O.run(case['steps'], True)
    ids = [i for i in range(len(O.bodies)) if O.bodies[i] is not None]
    B = {i: O.bodies[i] for i in ids}
    pos = {i: A(B[i].state.pos) for i in ids}
    vel = {i: A(B[i].state.vel) for i in ids}
    rad = {i: B[i].shape.radius for i in ids if isinstance(B[i].shape, w.Sphere)}
    isc = {i: isinstance(B[i].shape, w.Clump) for i in ids}
    F = {i: A(O.forces.f(i, True)) for i in ids}
    T = {i: A(O.forces.t(i, True)) for i in ids}
    I = [x for x in O.interactions if x.isReal]
    hs = M(O.cell.hSize) if peri else np.zeros((3, 3))
    fn = [A(x.phys.normalForce) for x in I]
    fs = [A(x.phys.shearForce) for x in I]
    ft = [a + b for a, b in zip(fn, fs)]
    if not all(np.all(np.isfinite(f)) for f in ft) or np.linalg.norm(A(case['dir'])) < .1:
        raise Reject  # centres coincide
    br = [pos[x.id1] - pos[x.id2] - hs @ A(x.cellDist) for x in I]
    n = [A(x.geom.normal) for x in I]

    def eq(name, got, want, tol=1e-9):
        g, x = np.array(got, float), np.array(want, float)
        check(g.shape == x.shape, '%s has shape %s instead of %s', name, g.shape, x.shape)
        s = max([1.] + [abs(v) for v in x.flatten() if math.isfinite(v)])
        bad = [(a, b) for a, b in zip(g.flatten(), x.flatten()) if not (a == b or (a != a and b != b) or abs(a - b) <= tol * s)]
        check(not bad, '%s is %s; from the bodies and contacts it is %s', name, g.tolist(), x.tolist())
    mask = case['mask']
    mok = lambda i: mask <= 0 or B[i].mask & mask
    eq('getSpheresVolume', utils.getSpheresVolume(mask), sum(4 / 3 * math.pi * rad[i]**3 for i in rad if mok(i)))
    eq('getSpheresMass', utils.getSpheresMass(mask), sum(B[i].state.mass for i in rad if mok(i)))
    eq('getSpheresVolume2D', utils.getSpheresVolume2D(mask), sum(math.pi * rad[i]**2 for i in rad if mok(i)))
    Vs = sum(4 / 3 * math.pi * r**3 for r in rad.values())
    lo = hi = None
    if rad:
        cen = case['centers']
        lo = np.min([pos[i] - (0 if cen else rad[i]) for i in rad], axis=0)
        hi = np.max([pos[i] + (0 if cen else rad[i]) for i in rad], axis=0)
        ex = utils.aabbExtrema(case['cut'], cen)
        eq('aabbExtrema', [list(ex[0]), list(ex[1])], [list(lo + .5 * case['cut'] * (hi - lo)), list(hi - .5 * case['cut'] * (hi - lo))])
        lo = np.min([pos[i] - rad[i] for i in rad], axis=0)
        hi = np.max([pos[i] + rad[i] for i in rad], axis=0)
        ax = case['axis']
        for f in (1., 1.5):
            g = utils.negPosExtremeIds(ax, f)
            for s, got in ((-1, g[0]), (1, g[1])):
                ref = lo[ax] if s < 0 else hi[ax]
                for i in rad:
                    m = s * (pos[i][ax] + s * rad[i] * f - ref)
                    if abs(m) > 1e-9 or f == 1. and m == 0:
                        check((m >= 0) == (i in got), 'negPosExtremeIds(%d,%g): sphere %d is%s returned, its margin is %g', ax, f, i, '' if i in got else ' not', m)
    vol = abs(np.linalg.det(hs)) if peri else (float(np.prod(hi - lo)) if rad else 0.)
    if rad:
        eq('porosity', utils.porosity(), (vol - Vs) / vol)
        if not peri:
            eq('porosity(volume)', utils.porosity(7.), (7. - Vs) / 7.)
        else:
            s2 = sum(math.pi * r**2 for r in rad.values())
            eq('voidratio2D', utils.voidratio2D(1.5), (vol / 1.5 - s2) / s2)
    inbb = lambda i: bool(np.all(pos[i] > b0) and np.all(pos[i] < b1))
    b0, b1 = np.minimum(A(case['box'][0]), A(case['box'][1])) - .005, np.maximum(A(case['box'][0]), A(case['box'][1])) + .005
    bb = (V(b0), V(b1))
    got = utils.coordsAndDisplacements(case['axis'], bb)
    sel = [i for i in ids if inbb(i)]
    eq('coordsAndDisplacements', [list(got[0]), list(got[1])], [[pos[i][case['axis']] for i in sel], [pos[i][case['axis']] - B[i].state.refPos[case['axis']] for i in sel]])
    tops = [i for i in ids if not B[i].isClumpMember]
    eq('momentum', list(utils.momentum()), sum([B[i].state.mass * vel[i] for i in tops], np.zeros(3)))
    L = np.zeros(3)
    for i in tops:
        L = L + np.cross(pos[i] - A(case['pt']), B[i].state.mass * vel[i])
        s = B[i].state
        L = L + (A(s.angMom) if B[i].aspherical else A(s.inertia) * A(s.angVel))
    eq('angularMomentum', list(utils.angularMomentum(V(case['pt']))), L)
    if I:
        mf = np.mean([np.linalg.norm(f) for f in ft])
        bf = [np.linalg.norm(F[i] + B[i].state.mass * A(case['gravity'])) for i in tops if B[i].dynamic]
        if mf > 1e-9 and bf:
            eq('unbalancedForce', utils.unbalancedForce(), np.mean(bf) / mf, 1e-7)
            eq('unbalancedForce(max)', utils.unbalancedForce(True), max(bf) / mf, 1e-7)
            if before and before[-1][1] == len(I):
                eq('unbalancedForce before NewtonIntegrator', before[-1][0], np.mean(bf) / mf, 1e-7)
    some = [i for i in ids if B[i].mask & 1]
    d3 = A(case['dir'])
    eq('sumForces', utils.sumForces(some, V(d3)), sum(float(F[i] @ d3) for i in some))
    eq('sumTorques', utils.sumTorques(some, V(d3), V(case['pt'])), sum(float(d3 @ (T[i] + np.cross(pos[i] - A(case['pt']), F[i]))) for i in some))
    fac = [i for i in ids if isinstance(B[i].shape, w.Facet)]
    want = 0.
    for i in fac:
        x = [qmat(B[i].state.ori) @ A(v) for v in B[i].shape.vertices]
        nn = np.cross(x[1] - x[0], x[2] - x[0])
        want += float(F[i] @ nn) / np.linalg.norm(nn)
    eq('sumFacetNormalForces', utils.sumFacetNormalForces(fac), want)
    if not peri:
        for name, pt, nr, g in (('forcesOnPlane', A(case['pt']), d3, lambda: utils.forcesOnPlane(V(case['pt']), V(d3))), ('forcesOnCoordPlane', np.eye(3)[case['axis']] * case['zref'], np.eye(3)[case['axis']], lambda: utils.forcesOnCoordPlane(case['zref'], case['axis']))):
            side = lambda i: float((pos[i] - pt) @ nr)
            if any(abs(side(x.id1)) < 1e-9 or abs(side(x.id2)) < 1e-9 for x in I):
                continue
            eq(name, list(g()), sum([(1 if side(x.id1) < 0 else -1) * f for x, f in zip(I, ft) if side(x.id1) * side(x.id2) < 0], np.zeros(3)))
    tf = utils.totalForceInVolume()
    eq('totalForceInVolume', list(tf[0]) + [tf[1]], list(sum([np.abs(f) for f in ft], np.zeros(3))) + [np.mean([x.phys.kn / 3 + x.phys.ks * 2 / 3 for x in I]) if I else -1])
    sig = sum([np.outer(f, b) for f, b in zip(ft, br)], np.zeros((3, 3)))
    v = case['vol']
    if v or rad:
        eq('getStress', M(utils.getStress(v)), sig / (v or vol))
    if not clumps:
        eq('getStressAndTangent', M(utils.getStressAndTangent(v)[0]), sig / (v or (vol if peri else 1)))
    tg = utils.getStressAndTangent(v)[1]
    vo = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    want = np.zeros((6, 6))
    cp = lambda i: pos[B[i].clumpId] if B[i].isClumpMember else pos[i]
    for x, f, s_, nn in zip(I, ft, fs, n):
        l = cp(x.id1) - cp(x.id2) - hs @ A(x.cellDist)
        ts = np.linalg.norm(s_)
        for k, u in ((x.phys.kn, nn), (x.phys.ks, s_ / ts if ts > 0 else s_)):
            m6 = A([(u[a] * l[b_] + u[b_] * l[a]) / 2 for a, b_ in vo])
            want += k * np.outer(m6, m6)
    up = [(a, b_) for a in range(6) for b_ in range(a, 6)]
    eq('tangent stiffness', [tg[a, b_] for a, b_ in up], [want[a, b_] / (v or (vol if peri else 1)) for a, b_ in up])
    # fabric
    if I and rad:
        e0, e1 = lo + .5 * case['cut'] * (hi - lo), hi - .5 * case['cut'] * (hi - lo)
        cpts = [A(x.geom.contactPoint) for x in I]
        if all(np.all(np.abs(c - e0) > 1e-9) and np.all(np.abs(c - e1) > 1e-9) for c in cpts):
            s = [k for k, c in enumerate(cpts) if np.all(c >= e0) and np.all(c <= e1)]
            if s:
                eq('fabricTensor', M(utils.fabricTensor(case['cut'])[0]), np.mean([np.outer(n[k], n[k]) for k in s], axis=0))
                f = [-float(fn[k] @ n[k]) for k in s]
                th = np.mean(f) if case['thr'] is None else case['thr']
                if all(abs(x - th) > 1e-9 * (1 + abs(th)) for x in f):
                    g = utils.fabricTensor(case['cut'], True) if case['thr'] is None else utils.fabricTensor(case['cut'], True, case['thr'])
                    for name, gg, ss in (('strong', g[0], [k for k, x in zip(s, f) if x < th]), ('weak', g[1], [k for k, x in zip(s, f) if x >= th])):
                        if ss:
                            eq('fabricTensor, %s part' % name, M(gg), np.mean([np.outer(n[k], n[k]) for k in ss], axis=0))
    if peri and I:
        g = utils.normalShearStressTensors()
        R2 = [x.geom.refR1 + x.geom.refR2 for x in I]
        sn = sum([r * float(f @ nn) * np.outer(nn, nn) for r, f, nn in zip(R2, fn, n)], np.zeros((3, 3))) / vol
        st_ = sum([r * np.outer(nn, f) for r, f, nn in zip(R2, fs, n)], np.zeros((3, 3))) / vol
        eq('normal stress', M(g[0]), sn)
        iu = np.triu_indices(3)
        eq('shear stress', M(g[1])[iu], st_[iu])
        g = utils.normalShearStressTensors(splitNormalTensor=True)
        eq('strong+weak normal stress', M(g[0]) + M(g[1]), sn)
        g = utils.normalShearStressTensors(compressionPositive=True)
        eq('normal stress with compression positive', M(g[0]), -sn)
    bs = utils.bodyStressTensors()
    want = {i: np.zeros((3, 3)) for i in ids}
    for x, f in zip(I, ft):
        c = A(x.geom.contactPoint)
        want[x.id1] = want[x.id1] - np.outer(f, c - pos[x.id1]) * 3 / (4 * math.pi * x.geom.refR1**3)
        want[x.id2] = want[x.id2] + np.outer(f, c - pos[x.id2] - hs @ A(x.cellDist)) * 3 / (4 * math.pi * x.geom.refR2**3)
    for i in rad:
        eq('bodyStressTensors[%d]' % i, M(bs[i]), want[i])
    vg = M(O.cell.velGrad) if peri else np.zeros((3, 3))
    fl = {i: vel[i] - (vg @ pos[i] if peri else 0) for i in ids}
    ds = utils.getDynamicStress()
    for i in ids:
        eq('getDynamicStress[%d]' % i, M(ds[i]), -np.outer(fl[i], fl[i]) * B[i].state.mass / (4 / 3 * math.pi * rad[i]**3) if i in rad else np.zeros((3, 3)))
    if peri or v:
        eq('getTotalDynamicStress', M(utils.getTotalDynamicStress(v)), -sum([B[i].state.mass * np.outer(fl[i], fl[i]) for i in tops], np.zeros((3, 3))) / (v or vol))
    # profiles
    N, dz, z0 = case['ncell'], case['dz'], case['zref']
    if not peri:
        ax = case['axis']
        g = utils.getDepthProfiles(2., N, dz, z0, False, 0., ax)
        g2 = utils.getDepthProfiles_center(2., N, dz, z0, False, 0.)
        cap = lambda r, h: math.pi * (r * r * h - h**3 / 3) + 2 / 3 * math.pi * r**3  # volume below height h above the centre
        phi = np.zeros(N)
        vm = np.zeros((3, N))
        for i in rad:
            for k in range(N):
                h0, h1 = [min(max(z0 + j * dz - pos[i][ax], -rad[i]), rad[i]) for j in (k, k + 1)]
                pv = cap(rad[i], h1) - cap(rad[i], h0)
                phi[k] += pv
                vm[:, k] += pv * vel[i]
        eq('solid fraction profile', g[0], phi / 2., 1e-7)
        for a in range(3):
            eq('velocity profile (%d)' % a, [x for x, p in zip(g[1 + a], phi) if p > 1e-6], [x / p for x, p in zip(vm[a], phi) if p > 1e-6], 1e-6)
        if all(abs((pos[i][2] - z0) / dz - round((pos[i][2] - z0) / dz)) > 1e-9 for i in ids):
            lay = {i: math.floor((pos[i][2] - z0) / dz) for i in ids}
            for k in range(N):
                inl = [i for i in rad if lay[i] == k]
                eq('solid fraction of layer %d (centres)' % k, g2[0][k], sum(4 / 3 * math.pi * rad[i]**3 for i in inl) / 2.)
                for a in range(3):
                    eq('velocity of layer %d (centres)' % k, g2[1 + a][k], np.mean([vel[i][a] for i in inl]) if inl else 0.)
            if not clumps:
                va = A(case['pt'])
                g = utils.getStressProfile(2., N, dz, z0, [va[0]] * N, [va[1]] * N, [va[2]] * N)
                gc = utils.getStressProfile_contact(2., N, dz, z0)
                for k in range(N):
                    kin = -sum([B[i].state.mass * np.outer(vel[i] - va, vel[i] - va) for i in ids if lay[i] == k], np.zeros((3, 3))) / 2.
                    con = np.zeros((3, 3))
                    for x, f, b_ in zip(I, ft, br):
                        if B[x.id1].state.blockedDOFs == 'xyzXYZ' and B[x.id2].state.blockedDOFs == 'xyzXYZ':
                            continue
                        za, zb = sorted((pos[x.id1][2] - z0, pos[x.id2][2] - z0))
                        part = (max(0., min(zb, (k + 1) * dz) - max(za, k * dz)) / (zb - za)) if zb > za else float(lay[x.id1] == k)
                        con = con + np.outer(f, b_) * part / 2.
                    eq('contact stress of layer %d' % k, M(gc[0][k]), con, 1e-7)
                    eq('stress of layer %d' % k, M(g[0][k]), con + kin, 1e-7)
                    eq('kinetic stress of layer %d' % k, M(g[1][k]), kin)
                    inl = [i for i in ids if lay[i] == k]
                    eq('granular temperature of layer %d' % k, g[2][k], np.mean([float((vel[i] - va) @ (vel[i] - va)) / 3 for i in inl]) if inl else 0.)
    # contact statistics
    ov = [x.geom.penetrationDepth * (rad[x.id1] + rad[x.id2]) / (2 * rad[x.id1] * rad[x.id2]) for x in I if x.id1 in rad and x.id2 in rad]
    eq('maxOverlapRatio', utils.maxOverlapRatio(), max(ov + [-1.]))
    ni = utils.numIntrsOfEachBody()
    io = utils.intrsOfEachBody()
    cnt = {i: sum(1 for x in I if i in (x.id1, x.id2)) for i in range(len(O.bodies))}
    check(list(ni) == [cnt[i] for i in range(len(O.bodies))], 'numIntrsOfEachBody is %s, the contacts give %s', list(ni), list(cnt.values()))
    for i in range(len(O.bodies)):
        check(sorted((x.id1, x.id2) for x in io[i]) == sorted((x.id1, x.id2) for x in I if i in (x.id1, x.id2)), 'intrsOfEachBody[%d] is %s', i, [(x.id1, x.id2) for x in io[i]])
    h = {}
    per = {i: 0 for i in ids}
    for x in I:
        for j in (x.id1, x.id2):
            if inbb(j):
                per[B[j].clumpId if B[j].isClumpMember else j] += 1
    for i in ids:
        if per[i] > 0 or (inbb(i) and not B[i].isClumpMember):
            h[per[i]] = h.get(per[i], 0) + 1
    g = utils.bodyNumInteractionsHistogram(bb)
    check(dict(zip(list(g[0]), list(g[1]))) == h, 'bodyNumInteractionsHistogram is %s, the contacts give %s', dict(zip(list(g[0]), list(g[1]))), h)
    nb = 12
    ax = case['axis']
    g = utils.interactionAnglesHistogram(ax, mask=max(mask, 0), bins=nb)
    want = np.zeros(nb)
    ok = True
    for x, nn in zip(I, n):
        if mask > 0 and not (B[x.id1].mask & mask and B[x.id2].mask & mask):
            continue
        a, b_ = nn[(ax + 1) % 3], nn[(ax + 2) % 3]
        l = math.hypot(a, b_)
        if l < 1e-6 * (1 + 1e-6):
            ok = ok and l < .9e-6
            continue
        t = math.atan2(b_, a) % math.pi / (math.pi / nb)
        ok = ok and 1e-6 < t - math.floor(t) < 1 - 1e-6
        want[min(int(t), nb - 1)] += l
    if ok:
        eq('interactionAnglesHistogram', list(g[1]), want)
    if not case['voxel'] and not peri and rad:
        v0, v1 = A(case['box'][0]) - .1, A(case['box'][0]) + A([1.2, 1., .8])
        res = 60
        vp = utils.voxelPorosity(res, V(v0), V(v1))
        # a coarse grid of points decides up to the volume of voxels at surfaces
        gr = [np.linspace(v0[k], v1[k], res + 1)[:-1] + (v1[k] - v0[k]) / res / 2 for k in range(3)]
        X, Y, Z = np.meshgrid(*gr, indexing='ij')
        ins = np.zeros(X.shape, bool)
        near = np.zeros(X.shape, bool)
        vx = np.linalg.norm((v1 - v0) / res)
        for i in rad:
            dd = np.sqrt((X - pos[i][0])**2 + (Y - pos[i][1])**2 + (Z - pos[i][2])**2) - rad[i]
            ins |= dd < -1.01 * vx
            near |= np.abs(dd) <= 1.01 * vx
        near &= ~ins
        a, b_ = 1 - ins.mean() - near.mean(), 1 - ins.mean()
        check(a - 1e-9 <= vp <= b_ + 1e-9, 'voxelPorosity is %g; it lies between %g and %g', vp, a, b_)
    # operations on all bodies
    op = case['op']
    if op == 'calm':
        m0 = {i: (vel[i], A(B[i].state.angVel), A(B[i].state.angMom)) for i in ids}
        utils.calm(mask)
        for i in ids:
            z = B[i].dynamic and mok(i)
            got = [A(B[i].state.vel), A(B[i].state.angVel), A(B[i].state.angMom)]
            for k in range(3):
                check(bool(np.all(got[k] == (0 if z else m0[i][k]))), 'after calm(mask=%d) the velocity of body %d (mask %d%s) is %s', mask, i, B[i].mask, ', dynamic' if B[i].dynamic else '', got[k].tolist())
    elif op == 'friction':
        old = {i: B[i].material.frictionAngle for i in ids if not isc[i]}
        usedby = {i: any(B[j].dynamic for j in old if B[j].material.id == B[i].material.id) for i in old}
        utils.setContactFriction(.45)
        for i in old:
            eq('friction angle of the material of body %d' % i, B[i].material.frictionAngle, .45 if usedby[i] else old[i])
        for x in I:
            eq('friction coefficient', x.phys.tangensOfFrictionAngle, math.tan(min(B[x.id1].material.frictionAngle, B[x.id2].material.frictionAngle)))
    elif op == 'grow':
        m = case['mult']
        s0 = {i: (B[i].state.mass, A(B[i].state.inertia)) for i in ids}
        k0 = [(x.phys.kn, x.phys.ks) for x in I]
        grown = [i for i in ids if (i in rad or isc[i]) and (B[i].dynamic or not case['dyn'])]
        if case['dyn'] and any(B[i].isClumpMember for i in ids):
            grown = None  # members are not dynamic by themselves
        utils.growParticles(m, updateMass=case['upm'], dynamicOnly=case['dyn'])
        if grown is not None:
            for i in ids:
                g = i in grown
                if i in rad:
                    eq('radius of %d' % i, B[i].shape.radius, rad[i] * (m if g else 1))
                f = m if g and case['upm'] else 1.
                eq('mass of %d' % i, B[i].state.mass, s0[i][0] * f**3)
                eq('inertia of %d' % i, list(B[i].state.inertia), s0[i][1] * f**5)
                c = pos[B[i].clumpId] if B[i].isClumpMember else pos[i]
                eq('position of %d' % i, list(B[i].state.pos), c + (pos[i] - c) * (m if g and B[i].isClumpMember else 1))
            for x, k in zip(I, k0):
                eq('stiffness', [x.phys.kn, x.phys.ks], [k[0] * m, k[1] * m])
                for j, r in ((x.id1, x.geom.refR1), (x.id2, x.geom.refR2)):
                    if j in grown:
                        eq('contact radius', r, B[j].shape.radius)
    elif op == 'grow1' and rad:
        i = sorted(rad)[len(rad) // 2]
        m = case['mult']
        ms, inr = B[i].state.mass, A(B[i].state.inertia)
        utils.growParticle(i, m, case['upm'])
        f = m if case['upm'] else 1.
        for j in rad:
            eq('radius of %d' % j, B[j].shape.radius, rad[j] * (m if i == j else 1))
        eq('mass', [B[i].state.mass] + list(B[i].state.inertia), [ms * f**3] + list(inr * f**5))
        for x in I:
            if i in (x.id1, x.id2):
                eq('contact radius', x.geom.refR1 if x.id1 == i else x.geom.refR2, rad[i] * m)
    elif op == 'shift':
        utils.shiftBodies(some, V(d3))
        for i in ids:
            eq('position of %d after shiftBodies' % i, list(B[i].state.pos), pos[i] + (d3 if i in some else 0))
    elif op == 'ref':
        utils.setRefSe3()
        for i in ids:
            eq('displacement after setRefSe3', list(B[i].state.displ()) + list(B[i].state.rot()), [0.] * 6)
        eq('strain of the cell after setRefSe3', M(O.cell.refHSize) if peri else 0., M(O.cell.hSize) if peri else 0.)
    elif op == 'vert' and fac:
        pts = [A(x) for x in case['bodies'][0]['pts']]
        if np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0])) > .1:
            i = fac[0]
            utils.setNewVerticesOfFacet(B[i], *[V(x) for x in pts])
            R = qmat(B[i].state.ori)
            x = [A(B[i].state.pos) + R @ A(vv) for vv in B[i].shape.vertices]
            eq('vertices after setNewVerticesOfFacet', x, pts)
            nn = np.cross(pts[1] - pts[0], pts[2] - pts[0])
            eq('area', B[i].shape.area, np.linalg.norm(nn) / 2)
            eq('normal', list(R @ A(B[i].shape.normal)), nn / np.linalg.norm(nn))
    return {'nt': bool(I and max(np.linalg.norm(f) for f in ft) > 0), 'labels': ['periodic' if peri else 'open', op] + (['clump'] if clumps else []) + (['facet'] if fac else [])}
