"""Contact coefficients: what two materials and two radii give is the documented combination, whatever the order of the bodies, and it is what the first force shows."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when a contact was created between two different materials or two different radii, or a MatchMaker supplied a coefficient'
QUICK, THOROUGH = 2800, 60000
ASSUMPTIONS = ['positive Young moduli and radii; MatchMakers that have a value for every pair they are asked for']
KINDS = ['frict', 'viscofrict', 'frictvisco', 'frictvisco_mixed', 'mindlin', 'cohfrict', 'viscel_tc', 'viscel_k', 'viscel_young', 'viscel_en', 'luding', 'cpm', 'jcfpm', 'lubr', 'mortar', 'inelast', 'capillary', 'capillary1']


def strategy(tier):
    from hypothesis import strategies as st
    pos = st.sampled_from([.25, .5, 1., 2., 3., .1, 10.])
    frac = st.sampled_from([0., 0., .1, .2, .3, .5, .7, 1.])
    unit = st.sampled_from([.05, .1, .2, .3, .45, .5, .7, .8, .95])
    mat = st.fixed_dictionaries({'E': pos, 'nu': frac, 'phi': st.sampled_from([0., .1, .3, .5, 1.]), 'a': pos, 'b': pos, 'c': pos, 'd': pos, 'e': unit, 'f': unit, 'g': st.sampled_from([0., .1, .5, 2.]), 'h': st.sampled_from([0., .2, .3]),
                                 'flag': st.booleans(), 'flag2': st.booleans(), 'rho': st.sampled_from([500., 1000., 3000.])})
    mm = st.one_of(st.none(), st.none(), st.fixed_dictionaries({'algo': st.sampled_from(['val', 'avg', 'min', 'max', 'harmAvg', 'zero']), 'val': unit, 'matches': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), unit).map(list), max_size=3),
                                                                'conv': st.booleans()}))
    return st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'm': st.lists(mat, min_size=2, max_size=2), 'same': st.booleans(), 'r': st.tuples(pos, pos).map(list), 'over': st.sampled_from([1e-3, .01, .05]),
                                  'mm': st.lists(mm, min_size=3, max_size=3), 'dyn': st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 1], [0, 0]]), 'shape': st.sampled_from(['sphere'] * 4 + ['facet', 'wall', 'box']),
                                  'dir': st.tuples(*[st.integers(-3, 3)] * 3).map(list), 'swap': st.booleans(), 'opt': st.integers(0, 7)})


def harm(a, b):
    return 0. if a * b == 0 else 2 * a * b / (a + b)


def mmval(d, i, j, v1=None, v2=None):
    """what the MatchMaker must answer; None when it must refuse"""
    if not d['conv']:
        for x, y, v in d['matches']:
            if {x, y} == {i, j} and (x != y) == (i != j):
                return v
        a = d['algo']
    else:
        a = 'val'
    if a == 'val':
        return d['val']
    if a == 'zero':
        return 0.
    if v1 is None:
        return None
    return {'avg': (v1 + v2) / 2, 'min': min(v1, v2), 'max': max(v1, v2), 'harmAvg': harm(v1, v2) if v1 or v2 else float('nan')}[a]  # the harmonic mean of two zeros is left open


def run(case):
    import numpy as np
    from yade import wrapper as W, utils
    from minieigen import Vector3
    kind, opt, m = case['kind'], case['opt'], case['m']
    if case['same']:
        m = [m[0], m[0]]
    shape = case['shape']
    if kind in ('cohfrict', 'inelast', 'jcfpm', 'luding', 'mortar'):
        shape = 'sphere'
    if kind == 'frictvisco_mixed' and case['same']:
        m = [dict(x) for x in m]
    r = list(case['r'])
    n = np.array(case['dir'], float)
    n = n / np.linalg.norm(n) if np.any(n) else np.array([1., 0, 0])
    need = {}

    def MMs(k, v1=None, v2=None):
        """(python object or None, expected value or None)"""
        d = case['mm'][k]
        if d is None:
            return None, None
        ids = (0, 0) if case['same'] and kind != 'frictvisco_mixed' else (0, 1)
        v = mmval(d, ids[0], ids[1], v1, v2)
        if v is None:
            d = dict(d, algo='val')
            v = mmval(d, ids[0], ids[1])
        if d['conv']:
            return d['val'], v
        return W.MatchMaker(matches=[Vector3(*t) for t in dict(((min(t[0], t[1]), max(t[0], t[1])), t) for t in reversed(d['matches'])).values()], algo=d['algo'], val=d['val']), v

    def fr(x):
        return dict(young=x['E'] * 1e6, poisson=x['nu'], frictionAngle=x['phi'], density=x['rho'])
    phis = [x['phi'] for x in m]
    fa, fav = MMs(0, *phis)
    E = [x['E'] * 1e6 for x in m]
    nu = [x['nu'] for x in m]
    ig = [W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Facet_Sphere_ScGeom(), W.Ig2_Wall_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom()]
    tanphi = math.tan(min(phis) if fa is None else fav)
    model = None
    if kind in ('frict', 'viscofrict'):
        cls = W.FrictMat
        mats = [cls(**fr(x)) for x in m]
        ip = (W.Ip2_FrictMat_FrictMat_FrictPhys if kind == 'frict' else W.Ip2_FrictMat_FrictMat_ViscoFrictPhys)(**({} if fa is None else {'frictAngle': fa}))
        law = W.Law2_ScGeom_FrictPhys_CundallStrack() if kind == 'frict' else W.Law2_ScGeom_ViscoFrictPhys_CundallStrack()
        model = lambda R, M: dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]), tangensOfFrictionAngle=tanphi)
        force = lambda p, un: p['kn'] * un
    elif kind in ('capillary', 'capillary1'):
        mats = [W.FrictMat(**fr(x)) for x in m]
        cls = W.Ip2_FrictMat_FrictMat_CapillaryPhys if kind == 'capillary' else getattr(W, 'Ip2_FrictMat_FrictMat_CapillaryPhys1', None)
        if cls is None:
            raise Reject('not compiled in')
        ip, law = cls(), W.Law2_ScGeom_FrictPhys_CundallStrack()
        model = lambda R, M: dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]), tangensOfFrictionAngle=math.tan(min(phis)))
        force = lambda p, un: p['kn'] * un
    elif kind in ('frictvisco', 'frictvisco_mixed'):
        mats = [W.FrictViscoMat(betan=x['g'], **fr(x)) for x in m]
        if kind == 'frictvisco_mixed':
            mats[0] = W.FrictMat(**fr(m[0]))
        kn_, knv = MMs(1)
        kr_, krv = MMs(2)
        kw = dict((k, v) for k, v in (('frictAngle', fa), ('kn', kn_), ('kRatio', kr_)) if v is not None)
        ip = (W.Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys if kind == 'frictvisco' else W.Ip2_FrictMat_FrictViscoMat_FrictViscoPhys)(**kw)
        law = W.Law2_ScGeom_FrictViscoPhys_CundallStrackVisco()

        def model(R, M):
            kn = harm(E[0] * R[0], E[1] * R[1]) if kn_ is None else knv
            ks = harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]) if kr_ is None else krv * kn
            g = [x['g'] for x in m]
            if kind == 'frictvisco_mixed':
                beta = g[1]
            else:
                beta = (g[0] + g[1]) / 2 if g[0] and g[1] else max(g)
            d = case['dyn'] if shape == 'sphere' else [0, case['dyn'][1]]
            mb = M[1] if not d[0] and d[1] else M[0] if not d[1] and d[0] else (M[0] * M[1] / (M[0] + M[1]) if M[0] + M[1] else float('nan'))
            return dict(kn=kn, ks=ks, tangensOfFrictionAngle=tanphi, cn=2 * math.sqrt(mb * kn) * beta if beta else 0.)
        force = lambda p, un: p['kn'] * un
    elif kind == 'mindlin':
        mats = [W.FrictMat(**fr(x)) for x in m]
        kw = {} if fa is None else {'frictAngle': fa}
        en_, env = MMs(1)
        b_, bv = MMs(2)
        o = opt % 4
        gam = [0., 10., 0., 3.][o]
        if en_ is not None and env:
            kw['en'] = en_
        elif b_ is not None:
            kw['betan'] = b_
            if o == 3:
                kw['betas'] = .25
        ip = W.Ip2_FrictMat_FrictMat_MindlinPhys(gamma=gam, eta=.5, krot=.2, ktwist=.3, **kw)
        law = W.Law2_ScGeom_MindlinPhys_Mindlin()

        def model(R, M):
            Es = 1 / ((1 - nu[0] ** 2) / E[0] + (1 - nu[1] ** 2) / E[1]) if (1 - nu[0] ** 2) / E[0] + (1 - nu[1] ** 2) / E[1] else float('inf')
            Rs = R[0] * R[1] / (R[0] + R[1])
            G = (E[0] / 2 / (1 + nu[0]) + E[1] / 2 / (1 + nu[1])) / 2
            d = dict(kno=4 / 3 * Es * math.sqrt(Rs), kso=4 * math.sqrt(Rs) * G / (2 - (nu[0] + nu[1]) / 2), adhesionForce=4 * math.pi * Rs * gam, kr=.2, ktw=.3, maxBendPl=.5 * (R[0] + R[1]) / 2, tangensOfFrictionAngle=tanphi)
            if 'en' in kw:
                le = math.log(env)
                d['alpha'] = -math.sqrt(5 / 6) * 2 * le / math.sqrt(le ** 2 + math.pi ** 2) * math.sqrt(2 * Es * math.sqrt(Rs))
            else:
                d['betan'] = bv if 'betan' in kw else 0.
                d['betas'] = .25 if 'betas' in kw else d['betan']
            return d
        force = lambda p, un: p['kno'] * un ** 1.5
    elif kind == 'cohfrict':
        mats = [W.CohFrictMat(isCohesive=x['flag'], alphaKr=x['g'], alphaKtw=x['h'], etaRoll=x['e'], etaTwist=x['f'], normalCohesion=x['a'] * 1e3, shearCohesion=x['b'] * 1e3, fragile=x['flag2'], momentRotationLaw=x['d'] > .5, **fr(x)) for x in m]
        nc, ncv = MMs(1)
        sc, scv = MMs(2)
        kw = dict((k, v) for k, v in (('frictAngle', fa), ('normalCohesion', nc), ('shearCohesion', sc)) if v is not None)
        ip = W.Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=bool(opt & 1), setCohesionNow=bool(opt & 2), **kw)
        law = W.Law2_ScGeom6D_CohFrictPhys_CohesionMoment()
        ig = [W.Ig2_Sphere_Sphere_ScGeom6D()]

        def model(R, M):
            ks = harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1])
            d = dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=ks, kr=R[0] * R[1] * ks * harm(m[0]['g'], m[1]['g']), ktw=R[0] * R[1] * ks * harm(m[0]['h'], m[1]['h']), tangensOfFrictionAngle=tanphi,
                     maxRollPl=min(m[0]['e'] * R[0], m[1]['e'] * R[1]), maxTwistPl=min(m[0]['f'] * R[0], m[1]['f'] * R[1]), momentRotationLaw=m[0]['d'] > .5 and m[1]['d'] > .5)
            coh = bool(opt & 3) and m[0]['flag'] and m[1]['flag']
            d['cohesionBroken'] = not coh
            if coh:
                d['normalAdhesion'] = (min(x['a'] for x in m) * 1e3 if nc is None else ncv) * min(R) ** 2
                d['shearAdhesion'] = (min(x['b'] for x in m) * 1e3 if sc is None else scv) * min(R) ** 2
                d['fragile'] = m[0]['flag2'] or m[1]['flag2']
            return d
        force = lambda p, un: p['kn'] * un
    elif kind.startswith('viscel'):
        fa, fav = MMs(0)
        tanphi = math.tan(min(phis) if fa is None else fav)
        kw = {} if fa is None else {'frictAngle': fa}
        mrt = 1 + opt % 2
        base = [dict(frictionAngle=x['phi'], density=x['rho'], mR=x['g'], mRtype=mrt) for x in m]
        if kind == 'viscel_tc':
            ex = [dict(tc=x['a'] * .01, en=x['e'], et=x['f']) for x in m]
            tc_, tcv = MMs(1)
            en_, env = MMs(2)
            if tc_ is not None and tcv:
                kw['tc'] = tc_
            if en_ is not None and env:
                kw['en'] = en_
        elif kind == 'viscel_k':
            ex = [dict(kn=x['a'] * 1e6, ks=x['b'] * 1e6, cn=x['g'] * 1e3, cs=x['h'] * 1e3) for x in m]
        elif kind == 'viscel_young':
            ex = [dict(young=x['E'] * 1e6, poisson=x['nu'], cn=x['g'] * 1e3, cs=x['h'] * 1e3) for x in m]
        else:
            ex = [dict(young=x['E'] * 1e6, poisson=x['nu'], en=x['e'], et=x['f']) for x in m]
        mats = [W.ViscElMat(**dict(b, **e)) for b, e in zip(base, ex)]
        ip = W.Ip2_ViscElMat_ViscElMat_ViscElPhys(**kw)
        law = W.Law2_ScGeom_ViscElPhys_Basic()

        def series(a, b):
            return a * b / (a + b) if a and b else a + b

        def model(R, M):
            M = [M[0] or M[1], M[1] or M[0]]
            mr = M[0] * M[1] / (M[0] + M[1]) if M[0] else float('nan')
            mR = [x['g'] for x in m]
            d = dict(tangensOfFrictionAngle=tanphi, mR=0. if not any(mR) else 2 / sum(1 / x for x in mR if x), mRtype=mrt)
            if kind == 'viscel_tc':
                tc = tcv if 'tc' in kw else (ex[0]['tc'] + ex[1]['tc']) / 2
                en = env if 'en' in kw else (ex[0]['en'] + ex[1]['en']) / 2
                et = (ex[0]['et'] + ex[1]['et']) / 2
                d.update(kn=mr / tc ** 2 * (math.pi ** 2 + math.log(en) ** 2), cn=-2 * mr / tc * math.log(en), ks=2 / 7 * mr / tc ** 2 * (math.pi ** 2 + math.log(et) ** 2), cs=-4 / 7 * mr / tc * math.log(et))
            elif kind == 'viscel_k':
                d.update((k, series(ex[0][k], ex[1][k])) for k in ('kn', 'ks', 'cn', 'cs'))
            else:
                kk = [2 * E[i] * R[i] for i in (0, 1)]
                d.update(kn=series(*kk), ks=series(kk[0] * nu[0], kk[1] * nu[1]))
                if kind == 'viscel_young':
                    d.update(cn=series(ex[0]['cn'], ex[1]['cn']), cs=series(ex[0]['cs'], ex[1]['cs']))
            return d
        force = lambda p, un: p['kn'] * un
    elif kind == 'luding':
        mats = [W.LudingMat(k1=x['a'] * 1e5, kp=x['b'] * 1e7, kc=x['c'] * 1e5, ks=x['d'] * 1e5, PhiF=x['e'], G0=x['g'] * 10, frictionAngle=x['phi'], density=x['rho']) for x in m]
        ip, law = W.Ip2_LudingMat_LudingMat_LudingPhys(), W.Law2_ScGeom_LudingPhys_Basic()

        def red(a, b):
            return harm(a, b) if a and b else 2 * (a + b)

        def model(R, M):
            k1, kp, phi = harm(m[0]['a'], m[1]['a']) * 1e5, harm(m[0]['b'], m[1]['b']) * 1e7, harm(m[0]['e'], m[1]['e'])
            if k1 >= kp:
                raise Reject
            rr = harm(*R)
            return dict(k1=k1, kp=kp, kc=harm(m[0]['c'], m[1]['c']) * 1e5, ks=harm(m[0]['d'], m[1]['d']) * 1e5, PhiF=phi, G0=red(m[0]['g'] * 10, m[1]['g'] * 10), DeltPMax=kp / (kp - k1) * phi * rr, DeltPNull=phi * rr, tangensOfFrictionAngle=math.tan(min(phis)))
        force = None
        if harm(m[0]['a'], m[1]['a']) * 1e5 >= .9 * harm(m[0]['b'], m[1]['b']) * 1e7:
            raise Reject
    elif kind == 'cpm':
        mats = [W.CpmMat(sigmaT=x['a'] * 1e4, epsCrackOnset=x['b'] * 1e-4, relDuctility=x['c'] * 10, neverDamage=x['flag'], dmgTau=x['d'], dmgRateExp=x['e'], plTau=x['a'], plRateExp=x['f'], isoPrestress=0., **fr(x)) for x in m]
        Em, Emv = MMs(1, *E)
        if Emv == 0:
            raise Reject('the model divides by the modulus')
        ip = W.Ip2_CpmMat_CpmMat_CpmPhys(cohesiveThresholdIter=[-1, 10, 0][opt % 3], **({} if Em is None else {'E': Em}))
        law = W.Law2_ScGeom_CpmPhys_Cpm()

        def model(R, M):
            av = lambda f: (f(m[0]) + f(m[1])) / 2
            e = sum(E) / 2 if Em is None or case['same'] else Emv
            L = (sum(case['r']) - un0) if shape == 'sphere' else r[1]
            A = math.pi * (min(R) if shape == 'sphere' else r[1]) ** 2
            G = e * sum(nu) / 2
            return dict(E=e, G=G, tanFrictionAngle=math.tan(sum(phis) / 2), undamagedCohesion=av(lambda x: x['a']) * 1e4, isCohesive=opt % 3 != 2, epsCrackOnset=av(lambda x: x['b']) * 1e-4, relDuctility=av(lambda x: x['c']) * 10,
                        neverDamage=any(x['flag'] for x in m), dmgTau=av(lambda x: x['d']), dmgRateExp=av(lambda x: x['e']), plTau=av(lambda x: x['a']), plRateExp=av(lambda x: x['f']), crossSection=A, refLength=L, kn=e * A / L, ks=G * A / L,
                        epsFracture=av(lambda x: x['b']) * 1e-4 * av(lambda x: x['c']) * 10)
        force = None
    elif kind == 'jcfpm':
        mats = [W.JCFpmMat(type=int(x['flag']), tensileStrength=[0., x['a'] * 1e4][x['flag2']], cohesion=x['b'] * 1e4 * (x['h'] > 0), residualFrictionAngle=[-1, x['e']][x['c'] > 1], **fr(x)) for x in m]
        ip = W.Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=[-1, 10, 0][opt % 3])
        law = W.Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM()

        def model(R, M):
            t = min([0., x['a'] * 1e4][x['flag2']] for x in m)
            c = min(x['b'] * 1e4 * (x['h'] > 0) for x in m)
            coh = opt % 3 != 2 and (t > 0 or c > 0) and m[0]['flag'] == m[1]['flag']
            A = math.pi * min(R) ** 2
            rf = [x['e'] if x['c'] > 1 else x['phi'] for x in m]
            d = dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]), crossSection=A, isCohesive=coh, tanFrictionAngle=math.tan(min(phis) if coh else min(rf)), isOnJoint=False)
            if coh:
                d.update(FnMax=t * A, FsMax=c * A)
            return d
        force = None
    elif kind == 'lubr':
        mats = [W.FrictMat(**fr(x)) for x in m]
        ip = W.Ip2_FrictMat_FrictMat_LubricationPhys(eta=.5, eps=.02)
        law = W.Law2_ScGeom_ImplicitLubricationPhys()

        def model(R, M):
            Es = 1 / ((1 - nu[0] ** 2) / E[0] + (1 - nu[1] ** 2) / E[1]) if (1 - nu[0] ** 2) / E[0] + (1 - nu[1] ** 2) / E[1] else float('inf')
            return dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]), kno=4 / 3 * Es * math.sqrt(R[0] * R[1] / (R[0] + R[1])), nun=math.pi * .5 * 1.5 * ((R[0] + R[1]) / 2) ** 2, eta=.5, eps=.02)
        force = None
    elif kind == 'mortar':
        mats = [W.MortarMat(tensileStrength=x['a'] * 1e6, compressiveStrength=x['b'] * 1e7, cohesion=x['c'] * 1e6, ellAspect=1 + x['d'], neverDamage=x['flag'], **fr(x)) for x in m]
        ip, law = W.Ip2_MortarMat_MortarMat_MortarPhys(cohesiveThresholdIter=10), W.Law2_ScGeom_MortarPhys_Lourenco()
        model = lambda R, M: dict(kn=harm(E[0] * R[0], E[1] * R[1]), ks=harm(E[0] * R[0] * nu[0], E[1] * R[1] * nu[1]), crossSection=min(R) ** 2, tensileStrength=min(x['a'] for x in m) * 1e6, compressiveStrength=min(x['b'] for x in m) * 1e7,
                                  cohesion=min(x['c'] for x in m) * 1e6, ellAspect=1 + sum(x['d'] for x in m) / 2, neverDamage=any(x['flag'] for x in m), tangensOfFrictionAngle=math.tan(sum(phis) / 2))
        force = None
    else:
        mats = [W.InelastCohFrictMat(tensionModulus=x['a'] * 1e6, compressionModulus=x['b'] * 1e6, shearModulus=x['c'] * 1e6, alphaKr=x['e'], alphaKtw=x['f'], nuBending=x['d'], nuTwist=x['a'], sigmaTension=x['b'] * 1e4, sigmaCompression=x['c'] * 1e5,
                                     shearCohesion=x['d'] * 1e4, creepTension=x['e'], creepBending=x['f'], creepTwist=x['e'], unloadTension=x['f'], unloadBending=x['e'], unloadTwist=x['f'], epsilonMaxTension=x['a'], epsilonMaxCompression=x['b'],
                                     etaMaxBending=x['c'], etaMaxTwist=x['d'], **fr(x)) for x in m]
        ip, law = W.Ip2_2xInelastCohFrictMat_InelastCohFrictPhys(), W.Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment()
        ig = [W.Ig2_Sphere_Sphere_ScGeom6D()]

        def model(R, M):
            mn = lambda k: min(x[k] for x in m)
            h = lambda k: harm(m[0][k] * R[0], m[1][k] * R[1]) * 1e6
            ks, knT, q = h('c'), h('a'), min(R)
            kr, ktw = R[0] * R[1] * ks * harm(m[0]['e'], m[1]['e']), R[0] * R[1] * ks * harm(m[0]['f'], m[1]['f'])
            return dict(knC=h('b'), knT=knT, ks=ks, kr=kr, ktw=ktw, tangensOfFrictionAngle=math.tan(min(phis)), kTCrp=knT * mn('e'), kRCrp=kr * mn('f'), kTwCrp=ktw * mn('e'), kTUnld=knT * mn('f'), kRUnld=kr * mn('e'), kTwUnld=ktw * mn('f'),
                        maxElC=mn('c') * 1e5 * q ** 2, maxElT=mn('b') * 1e4 * q ** 2, maxElB=mn('d') * q ** 3, maxElTw=mn('a') * q ** 3, shearAdhesion=mn('d') * 1e4 * q ** 2, maxExten=min(m[0]['a'] * R[0], m[1]['a'] * R[1]),
                        maxContract=min(m[0]['b'] * R[0], m[1]['b'] * R[1]), maxBendMom=mn('c') * q ** 3, maxTwist=2 * 3.14159265 * mn('d'))
        force = None
    un0 = case['over'] * min(r) if kind != 'lubr' else -.3 * min(r)
    one = case['same'] and kind != 'frictvisco_mixed'
    seen = []
    for swap in (False, True):
        O = W.Omega()
        O.reset()
        O.dt = 1e-9
        if one:
            O.materials.append(mats[0])
        else:
            O.materials.append(mats)
        mo = [O.materials[0], O.materials[0 if one else 1]]
        B = []
        if shape == 'sphere':
            B.append(utils.sphere(Vector3(0, 0, 0), r[0], material=mo[0], fixed=not case['dyn'][0]))
            B.append(utils.sphere(Vector3(*(n * (r[0] + r[1] - un0))), r[1], material=mo[1], fixed=not case['dyn'][1]))
        else:
            if shape == 'facet':
                q = 20 * r[1]
                B.append(utils.facet([Vector3(-q, -q, 0), Vector3(q, -q, 0), Vector3(0, q, 0)], material=mo[0]))
            elif shape == 'wall':
                B.append(utils.wall(Vector3(0, 0, 0), 2, material=mo[0]))
            else:
                B.append(utils.box(Vector3(0, 0, -r[1]), Vector3(20 * r[1], 20 * r[1], r[1]), material=mo[0], fixed=True))
            B.append(utils.sphere(Vector3(0, 0, r[1] - un0), r[1], material=mo[1], fixed=not case['dyn'][1]))
        M = [b.state.mass for b in B]
        order = [1, 0] if swap else [0, 1]
        ids = {}
        for k in order:
            ids[k] = O.bodies.append(B[k])
        # functors of one pass cannot be shared with the next scene in another state: they are plain parameter holders here
        O.engines = [W.ForceResetter(), W.InsertionSortCollider([W.Bo1_Sphere_Aabb(aabbEnlargeFactor=2. if kind == 'lubr' else 1.), W.Bo1_Facet_Aabb(), W.Bo1_Wall_Aabb(), W.Bo1_Box_Aabb()], verletDist=0),
                     W.InteractionLoop([type(g)(**({'interactionDetectionFactor': 2.} if kind == 'lubr' and 'Sphere_Sphere' in type(g).__name__ else {})) for g in ig], [ip], [law])]
        if kind == 'cohfrict':
            ip.cohesionDefinitionIteration = -1
            ip.setCohesionNow = bool(opt & 2)
        if kind == 'lubr' and shape != 'sphere':
            raise Reject
        if kind == 'viscel_en' or (kind.startswith('viscel') and not any(M)):
            pass
        O.step()
        if not O.interactions.has(0, 1) or not O.interactions[0, 1].isReal:
            check(kind in ('jcfpm', 'mortar', 'cpm', 'luding'), '%s (%s): bodies overlap by %g but have no contact', kind, shape, un0)
            raise Reject
        I = O.interactions[0, 1]
        check(I.phys is not None, '%s: contact without physics', kind)
        back = I.id1 != ids[0]
        R = [I.geom.refR1, I.geom.refR2]
        if back:
            R = R[::-1]
        if shape == 'sphere':
            check(R == r, '%s: reference radii %s instead of %s', kind, R, r)
        else:
            check(R[1] == r[1], '%s: reference radius %s of the sphere instead of %s', kind, R[1], r[1])
            R[0] = R[0] if R[0] > 0 else R[1]
        want = model(R, M)
        got = {}
        for k, v in want.items():
            g = getattr(I.phys, k)
            got[k] = g
            if isinstance(v, bool) or isinstance(g, bool):
                check(bool(v) == bool(g), '%s (%s, %s first): %s is %s instead of %s', kind, shape, 'second body' if swap else 'first body', k, g, v)
                continue
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                continue
            check(abs(g - v) <= 1e-9 * max(abs(v), 1e-300) if v else g == 0 or abs(g) < 1e-12, '%s (%s, %s first): %s is %r instead of %r', kind, shape, 'second body' if swap else 'first body', k, g, v)
        if force is not None and not (kind.startswith('viscel') and not any(M)):
            f = np.array(O.forces.f(ids[1]), float)
            d = n if shape == 'sphere' else np.array([0, 0, 1.])
            e = force(dict(want), un0)
            if math.isfinite(e):
                check(np.abs(f - d * e).max() <= 1e-6 * abs(e) + 1e-9, '%s (%s): first force %s instead of %s', kind, shape, f.tolist(), (d * e).tolist())
        seen.append(got)
    for k in seen[0]:
        a, b = seen
        check(a[k] == b[k] or isinstance(a[k], float) and (abs(a[k] - b[k]) <= 1e-9 * abs(a[k]) or math.isnan(a[k]) and math.isnan(b[k])), '%s: %s depends on the order of bodies: %s, %s', kind, k, a[k], b[k])
    if kind == 'viscel_en' and shape == 'sphere' and case['dyn'] == [1, 1]:
        collide(case, W, utils, Vector3, np, n, r, M, mo, ip, law, (m[0]['e'] + m[1]['e']) / 2, seen[0])
    return {'nt': m[0] != m[1] or r[0] != r[1] or any(x is not None for x in case['mm']), 'labels': [kind + ':' + shape]}


def collide(case, W, utils, Vector3, np, n, r, M, mo, ip, law, en, phys):
    """a central impact rebounds with the coefficient of restitution asked for"""
    O = W.Omega()
    cn = O.interactions[0, 1].phys.cn
    kn = phys['kn']
    if not cn > 0:
        return  # the search for the damping coefficient did not converge; it says so and goes on without damping
    mr = M[0] * M[1] / (M[0] + M[1])
    if cn / (2 * math.sqrt(kn * mr)) > 5:
        return
    steps = 2000
    T = math.pi / math.sqrt(kn / mr)
    O.interactions.clear()
    v = .01 * min(r) / T
    O.bodies[0].state.pos, O.bodies[1].state.pos = Vector3(0, 0, 0), Vector3(*(n * (r[0] + r[1])))
    if O.bodies[0].shape.radius != r[0]:
        O.bodies[0].state.pos, O.bodies[1].state.pos = O.bodies[1].state.pos, O.bodies[0].state.pos
    d = (O.bodies[1].state.pos - O.bodies[0].state.pos).normalized()
    O.bodies[0].state.vel, O.bodies[1].state.vel = Vector3(0, 0, 0), -d * v
    O.dt = T / steps
    O.engines = O.engines + [W.NewtonIntegrator(damping=0)]
    # the first overlap is made by one step of free flight
    O.bodies[1].state.pos = O.bodies[1].state.pos - d * v * O.dt
    for _ in range(12):
        O.run(steps, True)
        if not O.interactions.has(0, 1) or not O.interactions[0, 1].isReal:
            break
    else:
        raise Reject
    out = float((O.bodies[1].state.vel - O.bodies[0].state.vel).dot(d)) / v
    check(abs(out - en) <= .03 * en + .01, 'viscel: impact rebounds with %g instead of the restitution coefficient %g', out, en)
