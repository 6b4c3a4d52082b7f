"""Contact models available in yade, as small factories, and random packings of spheres governed by them."""
import numpy as np

E = [1e6, 2e6, 5e5]
NU = [.3, .2, .5]
PHI = [.5, .3, 0., .8]


def W():
    from yade import wrapper
    return wrapper


def friction(m, p):
    return dict(young=E[m % 3], poisson=NU[(m + p['nu']) % 3], frictionAngle=PHI[(m + p['phi']) % 4], density=1000)


def _cundall(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=p['ratch'])], ip=[w.Ip2_FrictMat_FrictMat_FrictPhys()],
                law=[w.Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=p['flag'], neverErase=p['never'])], mat=lambda m: w.FrictMat(**friction(m, p)))


def _mindlin(w, p):
    kw = [dict(), dict(betan=.1, betas=.1), dict(en=.6, es=.6), dict(krot=.1, ktwist=.1, eta=.1), dict(gamma=50.)][p['opt'] % 5]
    o = p['opt'] % 5
    lk = [dict(), dict(), dict(), dict(includeMoment=True), dict(includeAdhesion=True)][o]
    g = w.Ig2_Sphere_Sphere_ScGeom6D if o == 3 else w.Ig2_Sphere_Sphere_ScGeom
    return dict(ig=[g(avoidGranularRatcheting=p['ratch'])], ip=[w.Ip2_FrictMat_FrictMat_MindlinPhys(**kw)],
                law=[w.Law2_ScGeom_MindlinPhys_Mindlin(preventGranularRatcheting=p['flag'], neverErase=p['never'] and o != 4, **lk)], mat=lambda m: w.FrictMat(**friction(m, p)))


def _deres(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_FrictMat_FrictMat_MindlinPhys()], law=[w.Law2_ScGeom_MindlinPhys_MindlinDeresiewitz()], mat=lambda m: w.FrictMat(**friction(m, p)))


def _hls(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_FrictMat_FrictMat_MindlinPhys()], law=[w.Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=p['opt'] % 3, neverErase=p['never'])],
                mat=lambda m: w.FrictMat(**friction(m, p)))


def _cohfrict(w, p):
    o = p['opt'] % 4
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=p['ratch'])], ip=[w.Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=o != 1)],
                law=[w.Law2_ScGeom6D_CohFrictPhys_CohesionMoment(always_use_moment_law=p['flag'], useIncrementalForm=o == 2, shear_creep=o == 3, twist_creep=False, creep_viscosity=1e5)],
                mat=lambda m: w.CohFrictMat(isCohesive=True, alphaKr=.5, alphaKtw=.3, etaRoll=[-1, .1][p['never']], etaTwist=[-1, .2][p['never']], normalCohesion=2e4, shearCohesion=1e4,
                                            fragile=p['nu'] % 2 == 0, momentRotationLaw=True, **friction(m, p)))


def _inelast(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=p['ratch'])], ip=[w.Ip2_2xInelastCohFrictMat_InelastCohFrictPhys()], law=[w.Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment()],
                mat=lambda m: w.InelastCohFrictMat(tensionModulus=1e6, compressionModulus=1e6, shearModulus=5e5, alphaKr=.5, alphaKtw=.5, nuBending=.2, nuTwist=.2, sigmaTension=2e4, sigmaCompression=2e5,
                                                   shearCohesion=2e4, creepTension=.1, creepBending=.1, creepTwist=.1, unloadTension=.1, unloadBending=.1, unloadTwist=.1,
                                                   epsilonMaxTension=.1, epsilonMaxCompression=.1, etaMaxBending=.1, etaMaxTwist=.1, **friction(m, p)))


def _cpm(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.3)], ip=[w.Ip2_CpmMat_CpmMat_CpmPhys(cohesiveThresholdIter=3)], law=[w.Law2_ScGeom_CpmPhys_Cpm()],
                mat=lambda m: w.CpmMat(sigmaT=2e4, epsCrackOnset=1e-3, relDuctility=30, neverDamage=p['flag'], young=E[m % 3], poisson=NU[(m + p['nu']) % 3], frictionAngle=.5, density=1000), factor=1.3)


def _jcfpm(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.2)], ip=[w.Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=2)],
                law=[w.Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM(neverErase=p['never'])],
                mat=lambda m: w.JCFpmMat(type=1 if p['flag'] else m % 2, tensileStrength=2e4, cohesion=4e4, **friction(m, p)), factor=1.2)


def _viscel(w, p):
    o = p['opt'] % 3
    mk = [lambda m: dict(tc=.02, en=.5, et=.6), lambda m: dict(kn=1e6, ks=4e5, cn=1e3 + 500 * m, cs=800.), lambda m: dict(kn=1e6 + 1e5 * m, ks=4e5, cn=1e3, cs=800., mR=.1, mRtype=1 + p['nu'] % 2)][o]
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=p['ratch'])], ip=[w.Ip2_ViscElMat_ViscElMat_ViscElPhys()], law=[w.Law2_ScGeom_ViscElPhys_Basic()],
                mat=lambda m: w.ViscElMat(density=1000, frictionAngle=PHI[(m + p['phi']) % 4], **mk(m)))


CAP = ['Willett_numeric', 'Willett_analytic', 'Weigert', 'Rabinovich', 'Lambert', 'Soulie']


def _viscelcap(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_ViscElCapMat_ViscElCapMat_ViscElCapPhys()], law=[w.Law2_ScGeom_ViscElCapPhys_Basic()],
                mat=lambda m: w.ViscElCapMat(density=1000, frictionAngle=.4, kn=1e6, ks=4e5, cn=1e3, cs=8e2, Capillar=True, Vb=1e-3, gamma=2e3, theta=.2, dcap=.1, CapillarType=CAP[p['opt'] % 6]))


def _frictvisco(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys()], law=[w.Law2_ScGeom_FrictViscoPhys_CundallStrackVisco(sphericalBodies=p['flag'], neverErase=p['never'])],
                mat=lambda m: w.FrictViscoMat(betan=[.1, .1, .3][p['opt'] % 3], **friction(m, p)))


def _viscofrict(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_FrictMat_FrictMat_ViscoFrictPhys()], law=[w.Law2_ScGeom_ViscoFrictPhys_CundallStrack(shearCreep=p['flag'], viscosity=1e6 if p['opt'] else 1e7)],
                mat=lambda m: w.FrictMat(**friction(m, p)))


def _luding(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_LudingMat_LudingMat_LudingPhys()], law=[w.Law2_ScGeom_LudingPhys_Basic()],
                mat=lambda m: w.LudingMat(density=1000, k1=1e6, kp=3e6, kc=5e5, ks=3e5, PhiF=.999, G0=1e3, frictionAngle=PHI[(m + p['phi']) % 4]))


def _bubble(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom()], ip=[w.Ip2_BubbleMat_BubbleMat_BubblePhys()], law=[w.Law2_ScGeom_BubblePhys_Bubble()], mat=lambda m: w.BubbleMat(density=1))


def _mortar(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.2)], ip=[w.Ip2_MortarMat_MortarMat_MortarPhys(cohesiveThresholdIter=3)], law=[w.Law2_ScGeom_MortarPhys_Lourenco()],
                mat=lambda m: w.MortarMat(density=1000, young=E[m % 3], poisson=.2, frictionAngle=.5, tensileStrength=2e4, compressiveStrength=2e5, cohesion=2e4, ellAspect=3, neverDamage=p['flag']), factor=1.2)


def _l3(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_L3Geom(noRatch=p['ratch'], approxMask=p['opt'] % 8, trsfRenorm=[100, 1, 0][p['nu'] % 3])], ip=[w.Ip2_FrictMat_FrictMat_FrictPhys()],
                law=[w.Law2_L3Geom_FrictPhys_ElPerfPl(noSlip=p['flag'], noBreak=p['never'])], mat=lambda m: w.FrictMat(**friction(m, p)))


def _l6(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_L6Geom(noRatch=p['ratch'], approxMask=p['opt'] % 8)], ip=[w.Ip2_FrictMat_FrictMat_FrictPhys()],
                law=[w.Law2_L6Geom_FrictPhys_Linear(noSlip=p['flag'], charLen=.5)], mat=lambda m: w.FrictMat(**friction(m, p)))


def _lubr(w, p):
    return dict(ig=[w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.5)], ip=[w.Ip2_FrictMat_FrictMat_LubricationPhys(eta=100., eps=.01)],
                law=[w.Law2_ScGeom_ImplicitLubricationPhys(resolution=p['opt'] % 3, activateTangencialLubrication=p['flag'], activateTwistLubrication=True, activateRollLubrication=p['ratch'])],
                mat=lambda m: w.FrictMat(**friction(m, p)), factor=1.5)


LAWS = dict(cundall=_cundall, mindlin=_mindlin, deres=_deres, hls=_hls, cohfrict=_cohfrict, inelast=_inelast, cpm=_cpm, jcfpm=_jcfpm, viscel=_viscel, viscelcap=_viscelcap, frictvisco=_frictvisco,
            viscofrict=_viscofrict, luding=_luding, bubble=_bubble, mortar=_mortar, l3=_l3, l6=_l6, lubr=_lubr)


def params():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'opt': st.integers(0, 7), 'flag': st.booleans(), 'never': st.booleans(), 'ratch': st.booleans(), 'nu': st.integers(0, 2), 'phi': st.integers(0, 3)})


def packing(minn=2, maxn=5, speed=1.):
    """a cluster of nearly touching spheres with velocities"""
    from hypothesis import strategies as st
    j = st.integers(-40, 40).map(lambda x: x / 400)
    v = st.integers(-40, 40).map(lambda x: x / 8 * speed)
    v3 = st.one_of(st.just([0., 0., 0.]), st.tuples(v, v, v).map(list), st.tuples(v, v, v).map(list))
    body = st.fixed_dictionaries({'j': st.tuples(j, j, j).map(list), 'r': st.integers(-8, 12).map(lambda x: .5 + x / 200), 'v': v3, 'w': v3, 'm': st.integers(0, 2)})
    return st.tuples(st.lists(body, min_size=minn, max_size=maxn), st.permutations([(1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (-1, 0, 0)])).map(
        lambda t: [dict(b, site=[0, 0, 0] if i == 0 else list(t[1][(i - 1) % 5])) for i, b in enumerate(t[0])])


def prepare(law, bodies):
    """the lubrication model starts from separated spheres: smaller radii; None if some pair overlaps all the same"""
    if law != 'lubr':
        return bodies
    out = [dict(b, r=b['r'] * .75) for b in bodies]
    for i, a in enumerate(out):
        for b in out[:i]:
            d = np.array(a['site']) + np.array(a['j']) - np.array(b['site']) - np.array(b['j'])
            if np.linalg.norm(d) < a['r'] + b['r'] + .01:
                return None
    return out


def build(law, p, bodies, dt, A=None, t=(0, 0, 0), V=(0, 0, 0), order=None, gravity=(0, 0, 0), damping=0., energy=False, extra=(), periodic=None, trackE=False, verlet=0., pos=None, gap=0):
    """Makes the scene; A is an orthogonal matrix applied to the whole system, t a translation, V an added velocity, order the order of insertion.
    Returns (positions by original index -> body id)."""
    from yade import utils
    from minieigen import Vector3
    w = W()
    O = w.Omega()
    O.reset()
    O.dt = dt
    L = LAWS[law](w, p)
    A = np.eye(3) if A is None else np.asarray(A)
    det = round(np.linalg.det(A))
    O.materials.append([L['mat'](m) for m in range(3)])
    ids = {}
    for _ in range(gap):  # leaves holes in the numbering
        O.bodies.append(utils.sphere(Vector3(50, 50, 50), .1, material=O.materials[0]))
    for k in (order if order is not None else range(len(bodies))):
        b = bodies[k]
        x = A @ (np.array(b['site'], float) + np.array(b['j'])) + np.array(t, float) if pos is None else pos[k]
        s = utils.sphere(Vector3(*x), b['r'], material=O.materials[b['m']])
        s.state.vel = Vector3(*(A @ np.array(b['v'], float) + np.array(V, float)))
        s.state.angVel = Vector3(*(det * (A @ np.array(b['w'], float))))
        ids[k] = O.bodies.append(s)
    for i in range(gap):
        O.bodies.erase(i)
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=L.get('factor', 1.))], verletDist=verlet),
                 w.InteractionLoop(L['ig'], L['ip'], L['law'])] + list(extra) + [w.NewtonIntegrator(damping=damping, gravity=Vector3(*gravity))]
    if trackE:
        O.trackEnergy = True
    return ids


def states(ids):
    O = W().Omega()
    n = len(ids)
    S = [O.bodies[ids[k]].state for k in range(n)]
    return dict(x=np.array([s.pos for s in S], float), v=np.array([s.vel for s in S], float), w=np.array([s.angVel for s in S], float),
                f=np.array([O.forces.f(ids[k]) for k in range(n)], float), t=np.array([O.forces.t(ids[k]) for k in range(n)], float))
