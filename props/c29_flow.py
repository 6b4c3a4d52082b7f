"""Pore-scale flow coupling (FlowEngine): mass conservation, maximum principle, linearity, invariance and action on the particles, for any packing and boundary conditions."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when fluid flows through at least one boundary or source (or the pressure is uniform and non-zero) in a packing of 15 or more spheres'
QUICK, THOROUGH = 300, 3000
CASE_TIMEOUT = 120
ASSUMPTIONS = ['box of six walls filled with 15 to 60 non-overlapping spheres; incompressible fluid; pressures and fluxes are those reported after the engine has solved for the current configuration']
KINDS = ['linear', 'solver', 'isometry', 'renumber', 'scale', 'uniform', 'piston', 'spheres', 'source', 'cellpressure', 'history', 'superpose', 'factor', 'restart']


def strategy(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'seed': st.integers(0, 10 ** 6), 'n': st.integers(15, 60), 'dims': st.tuples(*[st.integers(7, 14)] * 3).map(list), 'org': st.tuples(*[st.integers(-5, 5)] * 3).map(list),
                                  'isP': st.lists(st.booleans(), min_size=6, max_size=6), 'val': st.lists(st.integers(-8, 8), min_size=6, max_size=6), 'val2': st.lists(st.integers(-8, 8), min_size=6, max_size=6),
                                  'a': st.sampled_from([-2., .5, 3., 10.]), 'c': st.integers(-20, 20), 'visc': st.sampled_from([1., 1e-3, .2]), 'perm': st.permutations([0, 1, 2]), 'mir': st.lists(st.booleans(), min_size=3, max_size=3),
                                  'wall': st.integers(0, 5), 'v': st.integers(-9, 9).filter(bool), 'clamp': st.booleans(), 'solver': st.sampled_from([3, 3, 3, 0])})


def build(case, X, R, isP, val, org, dims, solver=None, visc=None, wallv=None, sv=None, **kw):
    from yade import wrapper as w, utils
    from minieigen import Vector3
    import numpy as np
    O = w.Omega()
    O.reset()
    O.materials.append(w.FrictMat(label='m'))
    O.bodies.append(utils.aabbWalls([Vector3(*org), Vector3(*(org + dims))], thickness=0))
    for k in range(len(X)):
        b = utils.sphere(Vector3(*X[k]), R[k])
        b.state.blockedDOFs = 'xyzXYZ'
        if sv is not None:
            b.state.vel = Vector3(*sv[k])
        O.bodies.append(b)
    if wallv:
        O.bodies[wallv[0]].state.vel = Vector3(*wallv[1])
    f = w.FlowEngine(useSolver=case['solver'] if solver is None else solver, bndCondIsPressure=[bool(i) for i in isP], bndCondValue=[float(v) for v in val], boundaryUseMaxMin=[0] * 6,
                     viscosity=visc or case['visc'], clampKValues=case['clamp'], tolerance=1e-10, **kw)
    O.engines = [w.ForceResetter(), f, w.NewtonIntegrator()]
    O.dt = 1e-5
    return O, f


def fields(O, f):
    import numpy as np
    n = f.nCells()
    p, dup = {}, set()
    for i in range(n):
        key = tuple(sorted(f.getVertices(i)))
        if key in p:
            dup.add(key)
        p[key] = f.getCellPressure(i)
    for k in dup:
        del p[k]
    return p, np.array([f.getBoundaryFlux(i) for i in range(6)]), np.array([f.fluidForce(i) for i in range(len(O.bodies))], float)


def packing(case):
    import numpy as np
    rng = np.random.default_rng(case['seed'])
    dims = np.array(case['dims'], float) / 10
    org = np.array(case['org'], float)
    gap = .75 * (dims.prod() / case['n']) ** (1 / 3)
    X = []
    for _ in range(20000):
        x = rng.uniform(.4 * gap, 1, 3) * dims
        if np.all(x < dims - .4 * gap) and all(np.linalg.norm(x - y) > gap for y in X):
            X.append(x)
            if len(X) == case['n']:
                break
    if len(X) < 15:
        raise Reject
    R = rng.uniform(.25, .48, len(X)) * gap
    return np.array(X) + org, R, org, dims, rng


def run(case):
    import numpy as np
    from minieigen import Vector3
    kind = case['kind']
    if kind == 'scale':
        case = dict(case, clamp=False)   # the bounds used to clamp conductances do not scale as the conductances
    case = dict(case, solver=3)          # iterations stop early: they are only compared with the direct solver
    X, R, org, dims, rng = packing(case)
    isP = list(case['isP'])
    val = [float(v) if p else 0. for v, p in zip(case['val'], isP)]
    if not any(isP):
        isP[2] = True
        val[2] = 3.
    if kind in ('piston', 'spheres', 'source', 'cellpressure', 'isometry', 'renumber', 'scale'):
        isP = [p and i // 2 == case['wall'] // 2 for i, p in enumerate(isP)]
        if not any(isP):
            isP[case['wall']] = True
        val = [v if p else 0. for v, p in zip(val, isP)]
    pv = [v for v, p in zip(val, isP) if p]
    # cells along an edge shared by two boundaries of imposed pressure count for one of them only (documented): mass balance is judged when there is no such edge
    balance = len({i // 2 for i in range(6) if isP[i]}) == 1
    rng_p = max(pv) - min(pv)
    wallv = sv = None
    kw = {}
    if kind == 'uniform':
        isP, val = [True] * 6, [float(case['c'] or 3)] * 6
        rng_p = 0
    area = [dims[1] * dims[2], dims[0] * dims[2], dims[0] * dims[1]]
    nrm = np.zeros(3)
    if kind == 'piston':
        w = case['wall']
        if isP[w]:
            isP[w], isP[w ^ 1] = False, True
            val[w] = 0.
        nrm[w // 2] = case['v'] / 10
        wallv = (w, nrm)
    if kind == 'spheres':
        sv = rng.uniform(-1, 1, X.shape) * case['v'] / 10
    O, f = build(case, X, R, isP, val, org, dims, wallv=wallv, sv=sv, **kw)
    O.step()
    src = None
    if kind in ('source', 'cellpressure'):
        c = org + dims * (.3 + .4 * rng.random(3))
        if any(isP[i] for i in f.getVertices(f.getCell(*[float(t) for t in c])) if i < 6):
            raise Reject                 # the pore already has the pressure of a boundary
        src = f.imposeFlux(Vector3(*c), case['v'] / 10) if kind == 'source' else f.imposePressure(Vector3(*c), float(case['c']))
    if kind in ('source', 'cellpressure', 'piston', 'spheres'):
        O.step()
        if kind != 'source':
            O.step()
    p, Q, F = fields(O, f)
    P = np.array(list(p.values()))
    check(np.all(np.isfinite(P)) and np.all(np.isfinite(Q)) and np.all(np.isfinite(F)), '%s: pressure, flux or force is not finite', kind)
    pmax, pmin = [fn([v for v, i in zip(val, isP) if i]) for fn in (max, min)]
    ps = max(abs(P).max(), 1e-9)
    exact = case['solver'] == 3
    tolp = (1e-7 if exact else 1e-2) * ps + 1e-12
    qs = np.abs(Q).max()
    tolq = (1e-7 if exact else 2e-3) * (qs + 1e-12) + (1e-9 if exact else 1e-3) * ps * cond(case, dims)
    tot = sum(q for q, i in zip(Q, isP) if i)
    nt = True
    # mass balance: what enters through boundaries of imposed pressure leaves, or replaces the volume swept by walls, or comes from sources
    if kind == 'piston':
        want = -nrm[case['wall'] // 2] * area[case['wall'] // 2] * (1 if case['wall'] % 2 else -1)
        # flux is counted positive when it enters... the sign is fixed by the reference direction of getBoundaryFlux
        check(abs(abs(tot) - abs(want)) <= 2e-3 * abs(want) + tolq, 'piston: flux %g through the boundaries, swept volume rate %g', tot, want)
    elif kind == 'source':
        q = case['v'] / 10
        check(abs(tot + q) <= 1e-6 * abs(q) + tolq, 'source of %g: net flux through the boundaries is %g', q, tot)
    elif kind == 'cellpressure':
        got = f.getCellFlux(src)
        check(abs(abs(got) - abs(tot)) <= tolq + 1e-6 * abs(tot), 'imposed cell pressure: the cell exchanges %g, the boundaries %g', got, tot)
        pmax, pmin = max(pmax, case['c']), min(pmin, case['c'])
        check(abs(f.getPorePressure(Vector3(*c)) - case['c']) <= tolp, 'imposed cell pressure %g, found %g', case['c'], f.getPorePressure(Vector3(*c)))
    elif balance:
        check(abs(tot) <= tolq, '%s: net flux through the boundaries is %g, the largest being %g', kind, tot, qs)
    if kind in ('piston', 'source', 'spheres'):
        pass
    else:
        check(P.max() <= pmax + tolp and P.min() >= pmin - tolp, '%s: pressure in [%g,%g], imposed in [%g,%g]', kind, P.min(), P.max(), pmin, pmax)
        nt = rng_p > 0 or kind in ('uniform', 'cellpressure')
    # the field is what point queries report
    for k in range(3):
        x = org + dims * (.2 + .6 * rng.random(3))
        i = f.getCell(*[float(t) for t in x])
        a, b = f.getPorePressure(Vector3(*x)), f.getCellPressure(i)
        check(abs(a - b) <= tolp, 'getPorePressure gives %g, the pressure of the cell at this point is %g', a, b)
    # the engine passes to the bodies the forces it reports
    G = np.array([O.forces.f(i) for i in range(len(O.bodies))], float)
    fs = np.abs(F).max() + 1e-30
    check(np.abs(G[6:] - F[6:]).max() <= 1e-9 * fs, '%s: forces on spheres differ from those reported by the engine', kind)
    vol = sum(f.volume(i) for i in range(6, len(O.bodies)))
    if kind in ('uniform', 'linear', 'solver', 'renumber'):
        inner = inside(f, len(O.bodies))
    if kind == 'uniform':
        if inner:
            worst = max(np.abs(F[i]).max() for i in inner)
            check(worst <= 1e-7 * abs(val[0]) * max(R) ** 2, 'uniform pressure %g: force %g on a sphere', val[0], worst)
        nt = bool(inner)
        check(np.abs(P - val[0]).max() <= tolp, 'uniform pressure %g: pressures in [%g,%g]', val[0], P.min(), P.max())
    other = None
    A = np.eye(3)
    if kind == 'linear':
        a, c = case['a'], float(case['c'])
        O, g = build(case, X, R, isP, [a * v + c if i else 0. for v, i in zip(val, isP)], org, dims, visc=case['visc'] * 2)
        O.step()
        other = fields(O, g)
        same(case, 'pressures a*p+c and double viscosity', {k: a * v + c for k, v in p.items()}, Q * a / 2, None, other, abs(a) * tolp + 1e-7 * abs(c), abs(a) * tolq + 1e-9 * abs(c) * cond(case, dims), 1)
        for i in inner:
            check(np.abs(other[2][i] - a * F[i]).max() <= 1e-6 * (abs(a) * fs + (abs(c) + abs(a) * ps) * max(R) ** 2 * 1e-1) * (1 if exact else 1e3), 'linearity: force on sphere %d is %s, expected %s', i, other[2][i], a * F[i])
    elif kind == 'superpose':
        v2 = [float(v) if i else 0. for v, i in zip(case['val2'], isP)]
        O, g = build(case, X, R, isP, v2, org, dims)
        O.step()
        p2, Q2, _ = fields(O, g)
        O, g = build(case, X, R, isP, [x + y for x, y in zip(val, v2)], org, dims)
        O.step()
        other = fields(O, g)
        s2 = max(map(abs, v2)) + ps
        same(case, 'superposition', {k: p[k] + p2[k] for k in p if k in p2}, Q + Q2, None, other, 3e-7 * s2 if exact else 1e-2 * s2, tolq + 1e-6 * np.abs(Q2).max() + (0 if exact else 2e-3 * (np.abs(Q2).max() + qs + s2 * cond(case, dims) * .05)), 1)
    elif kind == 'factor':
        O, g = build(case, X, R, isP, val, org, dims, permeabilityFactor=4.)
        O.step()
        other = fields(O, g)
        same(case, 'permeability times 4', p, Q * 4, None, other, tolp, tolq * 4, 1)
    elif kind == 'solver':
        O, g = build(case, X, R, isP, val, org, dims, solver=3 - case['solver'])
        O.step()
        other = fields(O, g)
        same(case, 'other solver', p, Q, None, other, .1 * ps, np.inf, 1, np.mean)   # 1500 iterations, whatever the convergence: nearly isolated pores lag behind
    elif kind == 'renumber':
        od = rng.permutation(len(X))
        O, g = build(case, X[od], R[od], isP, val, org, dims)
        O.step()
        other = fields(O, g)
        m = {6 + k: 6 + int(od[k]) for k in range(len(X))}
        m.update({i: i for i in range(6)})
        q = {tuple(sorted(m.get(i, i) for i in k)): v for k, v in other[0].items()}
        FF = np.zeros_like(F)
        for k, v in m.items():
            FF[v] = other[2][k]
        same(case, 'renumbered spheres', p, Q, F, (q, other[1], FF), 2e-3 * ps, 5e-3 * qs + 1e-3 * ps * cond(case, dims), 1e-2 * fs)
    elif kind in ('isometry', 'scale'):
        s = case['a'] if kind == 'scale' and case['a'] > 0 else 1. if kind == 'isometry' else 2.
        pm = case['perm'] if kind == 'isometry' else [0, 1, 2]
        mir = case['mir'] if kind == 'isometry' else [False] * 3
        sh = np.array([1., -2., .5]) * case['v'] / 4
        # new axis j is old axis pm[j], possibly mirrored
        def tr(y):
            z = (y - org) / 1.
            z = np.where(np.array(mir), dims - z, z)
            return (z * s)[..., pm] + org + sh
        nd = (dims * s)[pm]
        wmap = {}
        for ax in range(3):
            for side in (0, 1):
                na = list(pm).index(ax)
                wmap[2 * ax + side] = 2 * na + (1 - side if mir[ax] else side)
        nP, nV = [False] * 6, [0.] * 6
        for o_, n_ in wmap.items():
            nP[n_], nV[n_] = isP[o_], val[o_]
        O, g = build(case, tr(X), R * s, nP, nV, org + sh, nd)
        O.step()
        q, Q2, F2 = fields(O, g)
        inv = {n_: o_ for o_, n_ in wmap.items()}
        q = {tuple(sorted(inv.get(i, i) for i in k)): v for k, v in q.items()}
        Q2 = np.array([Q2[wmap[i]] for i in range(6)]) / s ** 3
        if set(q) != set(p):
            return {'nt': False}
        same(case, 'moved, mirrored or scaled box', p, Q, None, (q, Q2, None), tolp * 100 + (2e-3 * ps), tolq * 100 + 5e-3 * qs, 1)
        sg = np.where(np.array(mir), -1., 1.)
        FF = np.zeros_like(F)
        FF[:, pm] = F2
        FF = FF * sg / s ** 2
        check(np.abs(FF[6:] - F[6:]).max() <= 1e-4 * fs + 1e-6 * ps * max(R) ** 2 if exact else True, '%s: forces on spheres are not transformed with the box', kind)
    elif kind == 'history':
        # same engine, other configuration: the result does not depend on what came before
        Y, S, *_ = packing(dict(case, seed=case['seed'] + 1))
        m = min(len(Y), len(X))
        O, f = build(case, X[:m], R[:m], isP, val, org, dims, meshUpdateInterval=1)
        O.step()
        for k in range(m):
            O.bodies[6 + k].state.pos = Vector3(*Y[k])
            O.bodies[6 + k].shape.radius = float(S[k])
        O.step()
        O.step()
        a = fields(O, f)
        O, g = build(case, Y[:m], S[:m], isP, val, org, dims, meshUpdateInterval=1)
        O.step()
        b = fields(O, g)
        same(case, 'new configuration after another one', b[0], b[1], b[2], a, tolp * 10, tolq * 10 + (1e-6 if exact else 1e-2) * np.abs(b[1]).max(), (1e-6 if exact else 1e-2) * np.abs(b[2]).max())
    elif kind == 'restart':
        # boundary conditions changed on a running engine act as if set from the start
        v2 = [float(v) if i else 0. for v, i in zip(case['val2'], isP)]
        f.bndCondValue = v2
        f.updateBCs()
        O.step()
        a = fields(O, f)
        O, g = build(case, X, R, isP, v2, org, dims)
        O.step()
        b = fields(O, g)
        s2 = max(map(abs, v2)) + ps
        same(case, 'boundary conditions changed', b[0], b[1], b[2], a, 1e-6 * s2 if exact else 1e-4 * s2, (1e-6 if exact else 1e-2) * np.abs(b[1]).max() + 1e-4 * s2 * cond(case, dims) * (1e-5 if exact else 1), (1e-6 if exact else 1e-2) * (np.abs(b[2]).max() + s2 * max(R) ** 2))
    check(abs(vol - dims.prod()) <= 2e-4 * dims.prod(), '%s: Voronoi volumes sum to %g, the box has %g', kind, vol, dims.prod())
    return {'nt': bool(nt), 'labels': [kind] if nt else []}


def cond(case, dims):
    """a typical conductance, for tolerances"""
    g = (dims.prod() / case['n']) ** (1 / 3)
    return g ** 3 / case['visc'] * 10


def inside(f, n):
    adj = {}
    for i in range(f.nCells()):
        v = f.getVertices(i)
        for a in v:
            adj[a] = adj.get(a, False) or any(x < 6 for x in v)
    return [i for i in range(6, n) if adj.get(i) is False]


def same(case, what, p, Q, F, other, tolp, tolq, tolf, red=max):
    import numpy as np
    q, Q2, F2 = other
    check(set(p) == set(q), '%s: the pores are not the same (%d and %d)', what, len(p), len(q))
    w = red([abs(p[k] - q[k]) for k in p])
    check(w <= tolp, '%s: pressures differ by %g (tolerance %g)', what, w, tolp)
    check(np.abs(Q - Q2).max() <= tolq, '%s: boundary fluxes %s, expected %s', what, Q2, Q)
    if F is not None:
        check(np.abs(F - F2)[6:].max() <= tolf, '%s: forces on spheres differ by %g', what, np.abs(F - F2)[6:].max())
