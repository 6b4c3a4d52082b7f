"""Contact laws: along any imposed relative motion of two particles, the contact carries the forces and moments its documented law gives for that history."""
from ylib import check, fail, Reject
import math

RULE = 'a case is non-trivial when the contact carried a force in three or more steps, and in one of them a shear force, a moment, a damping force or a plastic/limit state'
QUICK, THOROUGH = 700, 15000
ASSUMPTIONS = ['two spheres moved by the harness along generated sequences of relative displacements and rotations; stiffness and strength parameters are read from the new contact (their values are the subject of C25)']
DT = 1e-3
LAWS = ['cundall', 'viscofrict', 'frictvisco', 'mindlin', 'mindlin', 'hls', 'cohfrict', 'cohfrict', 'cohfrict', 'viscel', 'luding', 'jcfpm', 'inelast', 'wire']


def strategy(tier):
    from hypothesis import strategies as st
    i8 = st.integers(-8, 8)
    seg = st.fixed_dictionaries({'n': st.integers(1, 7), 'd': st.tuples(i8, st.one_of(st.just(0), i8), st.one_of(st.just(0), i8)).map(list),
                                 'w1': st.one_of(st.just([0, 0, 0]), st.tuples(i8, i8, i8).map(list)), 'w2': st.one_of(st.just([0, 0, 0]), st.tuples(i8, i8, i8).map(list)),
                                 'c': st.one_of(st.just([0, 0, 0]), st.tuples(i8, i8, i8).map(list)), 'set': st.sampled_from([None] * 6 + ['coh', 'init', 'nofric', 'unp'])})
    return st.fixed_dictionaries({'law': st.sampled_from(LAWS), 'o': st.lists(st.integers(0, 7), min_size=8, max_size=8), 'r': st.tuples(st.integers(3, 9), st.integers(3, 9)).map(list),
                                  'un': st.integers(-6, 40), 'axis': st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.integers(-3, 3)).filter(any).map(list), 'scale': st.sampled_from([.3, 1., 1., 2.]),
                                  'spin': st.sampled_from([1., 1., 8., 40.]), 'dyn': st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 1]]), 'flip': st.booleans(), 'segs': st.lists(seg, min_size=2, max_size=7)})


def scene(case):
    from yade import wrapper as w
    law, o = case['law'], case['o']
    fr = [dict(young=[1e6, 2e6, 5e5][o[0] % 3], poisson=[.3, .2, .5][o[1] % 3], frictionAngle=[.5, .3, 0., .8][o[2] % 4], density=1000) for _ in (0, 1)]
    fr[1].update(young=1.5e6)
    rt = bool(o[3] % 2)
    tr = bool(o[7] % 2)
    factor = 1.
    if law == 'cundall':
        L = w.Law2_ScGeom_FrictPhys_CundallStrack(sphericalBodies=bool(o[4] % 2), neverErase=o[5] % 4 == 0, traceEnergy=tr)
        return [w.FrictMat(**f) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_FrictMat_FrictMat_FrictPhys()], L, factor
    if law == 'viscofrict':
        L = w.Law2_ScGeom_ViscoFrictPhys_CundallStrack(shearCreep=o[4] % 4 > 0, viscosity=[1e4, 1e5, 1e6][o[6] % 3], creepStiffness=[.1, .5, 1.][o[5] % 3])
        return [w.FrictMat(**f) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_FrictMat_FrictMat_ViscoFrictPhys()], L, factor
    if law == 'frictvisco':
        L = w.Law2_ScGeom_FrictViscoPhys_CundallStrackVisco(sphericalBodies=bool(o[4] % 2), neverErase=o[5] % 4 == 0)
        return [w.FrictViscoMat(betan=[0., .2, .9][o[6] % 3], **f) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys()], L, factor
    if law == 'mindlin':
        kw = [dict(), dict(betan=.1), dict(betan=.2, betas=.05), dict(betas=.3), dict(en=.6, es=.6), dict(en=.2)][o[4] % 6]
        mom, adh = o[5] % 3 == 0, o[6] % 3 == 0
        if mom:
            kw.update(krot=2e3, ktwist=1e3, eta=[0., .02, .3][o[5] // 3 % 3])
        if adh:
            kw.update(gamma=[50., 400.][o[6] // 3 % 2])
        L = w.Law2_ScGeom_MindlinPhys_Mindlin(preventGranularRatcheting=rt, includeMoment=mom, includeAdhesion=adh, calcEnergy=tr, neverErase=o[3] % 4 > 1)
        return [w.FrictMat(**f) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=not rt)], [w.Ip2_FrictMat_FrictMat_MindlinPhys(**kw)], L, factor
    if law == 'hls':
        L = w.Law2_ScGeom_MindlinPhys_HertzWithLinearShear(nonLin=o[4] % 4, neverErase=o[5] % 4 == 0)
        return [w.FrictMat(**f) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_FrictMat_FrictMat_MindlinPhys()], L, factor
    if law == 'cohfrict':
        m = [dict(f, isCohesive=o[4] % 5 > 0, alphaKr=.5, alphaKtw=.3, etaRoll=[-1, .05, .3][o[5] % 3], etaTwist=[-1, .2, .02][o[5] % 3], normalCohesion=[4e4, 2e5][o[6] % 2], shearCohesion=[2e4, 1e5, 0.][o[6] // 2 % 3],
                  fragile=o[4] % 2 == 0, momentRotationLaw=o[7] % 4 > 0) for f in fr]
        m[1].update(shearCohesion=m[1]['shearCohesion'] * 1.5, alphaKr=.8, alphaKtw=.9)
        inc = o[3] // 2 % 2 == 1 or o[5] % 3 > 0
        L = w.Law2_ScGeom6D_CohFrictPhys_CohesionMoment(always_use_moment_law=o[2] > 3, useIncrementalForm=inc, shear_creep=o[1] == 7, twist_creep=not inc and o[1] in (5, 6), creep_viscosity=[5e3, 1e5][o[0] % 2], traceEnergy=tr)
        return [w.CohFrictMat(**x) for x in m], [w.Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=rt, creep=L.twist_creep)], [w.Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=o[4] % 3 > 0)], L, factor
    if law == 'viscel':
        k = [[dict(tc=.02, en=.5, et=.6)] * 2, [dict(kn=1e6, ks=4e5, cn=1e3 + 500 * m, cs=800.) for m in (0, 1)], [dict(kn=1e6 + 1e5 * m, ks=4e5, cn=1e3, cs=800., mR=.1 + m / 10, mRtype=1 + o[6] % 2) for m in (0, 1)]][o[5] % 3]
        return [w.ViscElMat(density=1000, frictionAngle=fr[0]['frictionAngle'], **x) for x in k], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_ViscElMat_ViscElMat_ViscElPhys()], w.Law2_ScGeom_ViscElPhys_Basic(), factor
    if law == 'luding':
        k = [dict(k1=1e6, kp=[3e6, 1.2e6][o[5] % 2], kc=[5e5, 5e6, 0.][o[6] % 3] + 1e5 * m, ks=3e5, PhiF=[.999, .01, .03][o[4] % 3], G0=[0., 1e3][o[7] % 2]) for m in (0, 1)]
        return [w.LudingMat(density=1000, frictionAngle=fr[0]['frictionAngle'], **x) for x in k], [w.Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=rt)], [w.Ip2_LudingMat_LudingMat_LudingPhys()], w.Law2_ScGeom_LudingPhys_Basic(), factor
    if law == 'jcfpm':
        m = [dict(f, type=1 if o[4] % 3 else i, tensileStrength=[1e4, 4e4, 0.][o[5] % 3], cohesion=[2e4, 1e5, 0.][o[6] % 3], residualFrictionAngle=[-1., .2][o[7] % 2]) for i, f in enumerate(fr)]
        return [w.JCFpmMat(**x) for x in m], [w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.1, avoidGranularRatcheting=rt)], [w.Ip2_JCFpmMat_JCFpmMat_JCFpmPhys(cohesiveTresholdIteration=[10, 3][o[3] // 2 % 2])], \
            w.Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM(neverErase=o[2] > 3), 1.1
    if law == 'inelast':
        m = dict(tensionModulus=1e6, compressionModulus=1.5e6, shearModulus=5e5, alphaKr=.5, alphaKtw=.5, nuBending=[2e2, 1e3][o[4] % 2], nuTwist=[2e2, 1e3][o[4] // 2 % 2], sigmaTension=[4e3, 2e4][o[5] % 2], sigmaCompression=[5e3, 3e4][o[5] // 2 % 2],
                 shearCohesion=[2e4, 2e5, 0.][o[6] % 3], creepTension=.1, creepBending=.2, creepTwist=.3, unloadTension=[.1, .6][o[7] % 2], unloadBending=.4, unloadTwist=.5,
                 epsilonMaxTension=.1, epsilonMaxCompression=.1, etaMaxBending=3e3, etaMaxTwist=[.1, .01][o[7] // 2 % 2])
        return [w.InelastCohFrictMat(**dict(m, **f)) for f in fr], [w.Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=rt)], [w.Ip2_2xInelastCohFrictMat_InelastCohFrictPhys()], w.Law2_ScGeom6D_InelastCohFrictPhys_CohesionMoment(), factor
    if law == 'wire':
        from minieigen import Vector2
        curve = [[(.01, 2e4), (.03, 3e4), (.12, 4e4)], [(.005, 3e4), (.2, 4e4)], [(.02, 1e4), (.03, 2.5e4), (.05, 3e4), (.08, 3.1e4)]][o[4] % 3]
        m = [w.WireMat(density=1000, young=1e6, poisson=.3, frictionAngle=.5, diameter=.1, strainStressValues=[Vector2(*c) for c in curve], isDoubleTwist=o[5] % 3 == 0, lambdaEps=.8, lambdak=.3, type=0)]
        return m, [w.Ig2_Sphere_Sphere_ScGeom(interactionDetectionFactor=1.3)], [w.Ip2_WireMat_WireMat_WirePhys(linkThresholdIteration=100)], w.Law2_ScGeom_WirePhys_WirePM(linkThresholdIteration=100), 1.3


def run(case):
    import numpy as np
    import newton
    from yade import wrapper as w, utils
    from minieigen import Vector3, Quaternion
    O = w.Omega()
    O.reset()
    O.dt = DT
    law = case['law']
    mats, ig, ip, L, factor = scene(case)
    O.materials.append(mats)
    r = [x / 10 for x in case['r']]
    ax = np.array(case['axis'], float)
    ax /= np.linalg.norm(ax)
    t1 = np.cross(ax, [1, 0, 0] if abs(ax[0]) < .6 else [0, 1, 0])
    t1 /= np.linalg.norm(t1)
    fr = np.array([ax, t1, np.cross(ax, t1)])
    u = 1e-3 * case['scale']
    x = [np.zeros(3), (r[0] + r[1] - case['un'] * 1e-3) * ax]
    for k in (0, 1):
        b = utils.sphere(Vector3(*x[k]), r[k], material=O.materials[k % len(mats)])
        if not case['dyn'][k]:
            b.state.blockedDOFs = 'xyzXYZ'
        O.bodies.append(b)
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(aabbEnlargeFactor=factor)], verletDist=0), w.InteractionLoop(ig, ip, [L])]
    q = [np.array([1., 0, 0, 0])] * 2
    M = MODELS[law](case, ip[0], L, ig[0], np)
    M.mass = [O.bodies[k].state.mass for k in (0, 1)]
    M.dyn = case['dyn']
    hot = deep = 0
    step = 0
    for seg in case['segs']:
        rel = u * (np.array(seg['d'], float) @ fr) / DT
        c = u * np.array(seg['c'], float) / DT
        v = [c, c + rel]
        om = [1e-3 * case['spin'] * (np.array(seg['w%d' % (k + 1)], float) @ fr) / DT for k in (0, 1)]
        if law == 'cohfrict' and seg['set']:
            M.command(seg['set'], O)
        for _ in range(seg['n']):
            for k in (0, 1):
                s = O.bodies[k].state
                s.pos, s.vel, s.angVel = Vector3(*x[k]), Vector3(*v[k]), Vector3(*om[k])
                s.ori = Quaternion(q[k][0], q[k][1], q[k][2], q[k][3])
            O.step()
            try:
                I = O.interactions[0, 1]
                real = I.isReal
            except IndexError:
                I, real = None, False
            want = M.step(step, x, v, om, q, r, I if real else None, factor)
            check(real == M.alive, '%s step %d: contact %s, expected %s', law, step, 'present' if real else 'absent', 'present' if M.alive else 'absent')
            F = [np.array(O.forces.f(k), float) for k in (0, 1)]
            T = [np.array(O.forces.t(k), float) for k in (0, 1)]
            sc = M.scale
            tol = 3e-8 * (sc + 1e-3)
            f, extra = want
            if M.swap:
                f, extra = -f, -extra
            if M.alive and real:
                d = x[1] - x[0]
                n = d / np.linalg.norm(d)
                un = r[0] + r[1] - np.linalg.norm(d)
                cp = x[0] + (r[0] - .5 * un) * n
                if M.judge:
                    check(np.abs(F[0] + f).max() <= tol, '%s step %d: force on the first particle is %s, expected %s', law, step, F[0], -f)
                    check(np.abs(F[1] - f).max() <= tol, '%s step %d: force on the second particle is %s, expected %s', law, step, F[1], f)
                    check(np.abs(T[0] - np.cross(cp - x[0], -f) + extra).max() <= tol, '%s step %d: torque on the first particle is %s, expected %s', law, step, T[0], np.cross(cp - x[0], -f) - extra)
                    check(np.abs(T[1] - np.cross(cp - x[1], f) - extra).max() <= tol, '%s step %d: torque on the second particle is %s, expected %s', law, step, T[1], np.cross(cp - x[1], f) + extra)
                    for name, val in M.attrs().items():
                        got = getattr(I.phys, name)
                        got = float(got) if isinstance(got, (int, float, bool)) else np.array(got, float)
                        check(np.abs(got - val).max() <= tol + 1e-7 * np.abs(val).max() if name not in M.tight else abs(got - val) <= 1e-9, '%s step %d: %s of the contact is %s, expected %s', law, step, name, got, val)
                if np.abs(f).max() > 1e-9:
                    hot += 1
                    deep += bool(M.deep or np.linalg.norm(np.cross(f, n)) > 1e-9 or np.abs(extra).max() > 1e-12)
            else:
                check(max(np.abs(F).max(), np.abs(T).max()) == 0, '%s step %d: force or torque without a contact: %s %s', law, step, F, T)
            for name, got, val, s in M.energies(L, O):
                check(abs(got - val) <= 1e-7 * (abs(val) + s) + 1e-9, '%s step %d: %s is %g, expected %g', law, step, name, got, val)
            for k in (0, 1):
                x[k] = x[k] + v[k] * DT
                q[k] = newton.qmul(newton.qrot(om[k] * DT), q[k])
                q[k] = q[k] / np.linalg.norm(q[k])
            step += 1
    return {'nt': hot >= 3 and deep >= 1, 'labels': [law] + sorted(M.labels) if hot >= 3 and deep else []}


class Tie(Reject):
    pass


class Base:
    """history of one contact; step() gives the force on the second particle and the additional moment on it"""
    six = False
    tight = ()

    def __init__(self, case, ip, law, ig, np):
        self.np, self.case, self.o, self.law, self.ip, self.ig = np, case, case['o'], law, ip, ig
        self.alive, self.scale, self.judge, self.deep, self.labels, self.iter, self.swap = False, 0., True, False, set(), 0, False
        self.start()

    def start(self):
        pass

    def attrs(self):
        return {}

    def energies(self, L, O):
        return []

    def nochance(self):
        """contact lost: forget its history"""
        self.alive = False

    def step(self, it, x, v, om, q, r, I, factor):
        np = self.np
        self.iter = it
        z = np.zeros(3)
        if not self.alive and I is not None:
            self.swap = I.id1 == 1   # the contact may have been made with its particles in either order
            if self.swap:
                self.labels.add('swapped')
        if self.swap:
            x, v, om, q, r = [a[::-1] for a in (x, v, om, q, r)]
        self.m, self.d = (self.mass[::-1], self.dyn[::-1]) if self.swap else (self.mass, self.dyn)
        d = x[1] - x[0]
        dist = np.linalg.norm(d)
        n = d / dist
        un = r[0] + r[1] - dist
        fresh = False
        if abs(un) < 1e-10:
            raise Tie
        self.judge, self.deep = True, False
        if not self.alive:
            lim = factor * (r[0] + r[1])
            if abs(dist - lim) < 1e-9:
                raise Tie
            if dist > lim:
                return z, z
            fresh = True
            self.n0 = n
            self.q0 = [a.copy() for a in q]
            self.fresh0 = it
        g = self
        g.orth = z if fresh else np.cross(self.n0, n)
        g.tw = z if fresh else DT * .5 * (self.n0 @ (om[0] + om[1])) * self.n0
        g.n0, g.n, g.un, g.r, g.x, g.v, g.om, g.q, g.fresh, g.dist = n, n, un, r, x, v, om, q, fresh, dist
        g.cp = x[0] + (r[0] - .5 * un) * n
        if fresh:
            if I is None and un > 1e-7:
                fail('%s step %d: the particles overlap by %g but there is no contact', self.case['law'], it, un)
            self.alive = True
            if I is not None:
                self.ph = I.phys
                self.begin(I.phys)
            else:
                self.begin(None)
        if self.ph is None:
            raise Tie
        keep, f, m = self.go()
        if not keep:
            self.nochance()
            return z, z
        self.scale = max(self.scale, np.abs(f).max(), np.abs(m).max())
        return f, m

    def rot(self, a):
        np = self.np
        a = a - np.cross(a, self.orth)
        return a - np.cross(a, self.tw)

    def incident(self, ratch):
        np, r, n = self.np, self.r, self.n
        if ratch:
            return (self.v[1] - self.v[0]) * (r[0] + r[1]) / self.dist - np.cross(self.om[1], r[1] * n) - np.cross(self.om[0], r[0] * n)
        return self.v[1] + np.cross(self.om[1], self.cp - self.x[1]) - self.v[0] - np.cross(self.om[0], self.cp - self.x[0])

    def vs(self, ratch):
        a = self.incident(ratch)
        return a - self.n * (self.n @ a)

    def vn(self, ratch):
        return self.n @ self.incident(ratch)

    def clip(self, F, lim):
        np = self.np
        N = np.linalg.norm(F)
        return (F * (lim / N), True) if N > lim else (F, False)

    def near(self, a, b, s=None):
        if abs(a - b) <= 1e-9 * (abs(a) + abs(b) if s is None else s):
            raise Tie


class Cundall(Base):
    def start(self):
        self.diss = 0.

    def begin(self, ph):
        self.Fs, self.Fn = self.np.zeros(3), self.np.zeros(3)
        self.kn, self.ks, self.tan = (ph.kn, ph.ks, ph.tangensOfFrictionAngle) if ph else (0, 0, 0)

    def creep(self):
        pass

    def normal(self):
        return self.kn * max(self.un, 0) * self.n

    def go(self):
        np = self.np
        z = np.zeros(3)
        self.creep()
        if self.un < 0:
            if not self.law.neverErase:
                return False, z, z
            self.Fs = self.Fn = z
            return True, z, z
        self.Fn = self.normal()
        tr = self.rot(self.Fs) - self.ks * DT * self.vs(self.ig.avoidGranularRatcheting)
        self.Fs, sl = self.clip(tr, np.linalg.norm(self.Fn) * self.tan)
        if sl:
            self.deep = True
            self.labels.add('slip')
            self.diss += (tr - self.Fs) @ self.Fs / self.ks if self.ks else 0
        return True, self.Fn + self.Fs, z

    def attrs(self):
        return {'normalForce': self.Fn, 'shearForce': self.Fs}

    def energies(self, L, O):
        if self.case['law'] != 'cundall':
            return []
        e = (self.Fn @ self.Fn / self.kn + self.Fs @ self.Fs / self.ks) / 2 if self.alive and self.kn and self.ks else 0
        out = [('elastic energy', L.elasticEnergy(), e, self.scale * 1e-2)]
        if L.traceEnergy:
            out.append(('plastic dissipation', L.plasticDissipation(), self.diss, self.scale * 1e-2))
        return out


class ViscoFrict(Cundall):
    def begin(self, ph):
        Cundall.begin(self, ph)
        self.creeped = self.np.zeros(3)

    def creep(self):
        L = self.law
        if L.shearCreep:
            self.creeped = self.rot(self.creeped)
            self.creeped = self.creeped + L.creepStiffness * self.ks * (self.Fs - self.creeped) * DT / L.viscosity
            self.Fs = self.Fs - self.ks * (self.Fs - self.creeped) * DT / L.viscosity
            self.labels.add('creep')


class FrictVisco(Cundall):
    def begin(self, ph):
        Cundall.begin(self, ph)
        self.cn = ph.cn if ph else 0

    def normal(self):
        self.deep = self.deep or self.cn > 0
        return (self.kn * max(self.un, 0) - self.cn * self.vn(True)) * self.n


class Hls(Base):
    def begin(self, ph):
        self.Fs = self.Fn = self.np.zeros(3)
        self.kno, self.kso, self.tan = (ph.kno, ph.kso, ph.tangensOfFrictionAngle) if ph else (0, 0, 0)

    def go(self):
        np = self.np
        z = np.zeros(3)
        if self.un < 0:
            self.Fs = self.Fn = z
            return self.law.neverErase, z, z
        k = self.law.nonLin
        self.Fn = self.kno * self.un ** 1.5 * self.n
        ks = self.kso * math.sqrt(self.un) if k > 0 else self.kso
        ratch = self.ig.avoidGranularRatcheting if k < 2 else k > 2
        self.Fs, sl = self.clip(self.rot(self.Fs) - ks * DT * self.vs(ratch), np.linalg.norm(self.Fn) * self.tan)
        self.deep = sl
        return True, self.Fn + self.Fs, z

    attrs = Cundall.attrs


class Mindlin(Base):
    def start(self):
        self.fric = self.shearE = self.nd = self.sd = 0.

    def begin(self, ph):
        z = self.np.zeros(3)
        self.Fe, self.Fs, self.Fn, self.ue, self.ut, self.Mb, self.Mt = z, z, z, z, z, z, z
        self.P = {k: getattr(ph, k) for k in ('kno', 'kso', 'tangensOfFrictionAngle', 'betan', 'betas', 'alpha', 'adhesionForce', 'kr', 'ktw', 'maxBendPl')} if ph else None

    def go(self):
        np, L, P = self.np, self.law, self.P
        z = np.zeros(3)
        n, un = self.n, self.un
        if un < 0:
            self.Fs = self.Fn = z
            if not L.neverErase:
                return False, z, z
            return True, z, z
        adh = L.includeAdhesion
        Fn = P['kno'] * un ** 1.5 - (P['adhesionForce'] if adh else 0)
        kn, ks = 1.5 * P['kno'] * math.sqrt(un), P['kso'] * math.sqrt(un)
        m1, m2 = self.m
        d1, d2 = self.d
        mb = m2 if d2 and not d1 else m1 if d1 and not d2 else m1 * m2 / (m1 + m2)
        damp = P['betan'] != 0 or P['betas'] != 0 or P['alpha'] != 0
        if P['alpha']:
            cn = cs = P['alpha'] * math.sqrt(mb) * un ** .25
        else:
            cn, cs = 2 * math.sqrt(mb * kn) * P['betan'], 2 * math.sqrt(mb * ks) * P['betas']
        rt = L.preventGranularRatcheting
        vn, vs = self.vn(rt), self.vs(rt)
        F0 = self.rot(self.Fe)
        Fe = F0 - ks * DT * vs
        if damp:
            self.deep = True
            visc = cn * vn
            tot = Fn - visc
            if not adh or P['adhesionForce'] == 0:
                if tot < 0:
                    visc = visc + tot
                    Fn = 0.
                    self.labels.add('nopull')
                else:
                    Fn = tot
            else:
                if tot < 0 and abs(visc) > P['adhesionForce']:
                    visc = math.copysign(P['adhesionForce'], visc)
                    self.labels.add('adhlimit')
                Fn -= visc
            self.nd += visc * vn * DT
        u0, t0 = self.rot(self.ue), self.rot(self.ut)
        ue, ut = u0 - vs * DT, t0 - vs * DT
        lim = P['tangensOfFrictionAngle'] * (abs(Fn) + (P['adhesionForce'] if adh else 0))
        Fe, sl = self.clip(Fe, lim)
        if sl:
            self.deep = True
            self.labels.add('slip')
            N = np.linalg.norm(F0 - ks * DT * vs)
            ue = ue * (lim / N)
            Fs = Fe
            self.fric += (ut - t0) @ Fe
        elif damp:
            Fs = Fe - cs * vs
            self.sd += cs * vs @ vs * DT
        else:
            Fs = Fe
        self.shearE += (ue - u0) @ (Fe + F0) / 2
        self.Fe, self.Fs, self.Fn, self.ue, self.ut = Fe, Fs, Fn * n, ue, ut
        M = z
        if L.includeMoment:
            w = self.om[1] - self.om[0]
            tw = (n @ w) * n
            self.Mb = self.rot(self.Mb) - P['kr'] * DT * (w - tw)
            self.Mt = self.rot(self.Mt) - P['ktw'] * DT * tw
            mx = P['maxBendPl'] * abs(Fn)
            if mx > 0:
                self.Mb, s = self.clip(self.Mb, mx)
                if s:
                    self.labels.add('rollslip')
            M = self.Mb + self.Mt
        if adh:
            self.labels.add('adhesion')
        return True, self.Fn + self.Fs, M

    def attrs(self):
        return {'normalForce': self.Fn, 'shearForce': self.Fs} if self.un >= 0 else {'normalForce': self.Fn, 'shearForce': self.Fs}

    def energies(self, L, O):
        if not L.calcEnergy:
            return []
        s = self.scale * 1e-2
        return [('frictionDissipation', L.frictionDissipation, self.fric, s), ('shearEnergy', L.shearEnergy, self.shearE, s), ('normDampDissip', L.normDampDissip, self.nd, s), ('shearDampDissip', L.shearDampDissip, self.sd, s)]


def rotdiff(np, q, q0, creep=None):
    import newton
    c = lambda a: np.array([a[0], -a[1], -a[2], -a[3]])
    d = newton.qmul(newton.qmul(q[0], c(q0[0])), newton.qmul(q0[1], c(q[1])))
    d = d / np.linalg.norm(d)
    if creep is not None:
        d = newton.qmul(d, creep)
    if d[0] < 0:
        d = -d
    s = np.linalg.norm(d[1:])
    if s < 1e-15:
        return np.zeros(3)
    a = 2 * math.atan2(s, d[0])
    if abs(a - math.pi) < 1e-6:
        raise Tie
    return a * d[1:] / s


class CohFrict(Base):
    tight = ('unp', 'normalAdhesion', 'shearAdhesion', 'cohesionBroken')

    def start(self):
        self.diss = 0.
        self.now = 0   # steps during which setCohesionNow acts

    def command(self, c, O):
        if c == 'coh':
            if self.ip.setCohesionNow:
                return   # still set from an earlier request, it is reset when contacts are visited next
            self.ip.setCohesionNow = True
            self.now = 1
        elif self.alive:
            ph = O.interactions[0, 1].phys
            if c == 'init':
                ph.initCohesion = True
                self.init = True
            elif c == 'nofric':
                ph.cohesionDisablesFriction = True
                self.P['cohesionDisablesFriction'] = True
            elif c == 'unp':
                ph.unpMax = .01
                self.P['unpMax'] = .01

    def begin(self, ph):
        z = self.np.zeros(3)
        self.Fs, self.Fn, self.Mb, self.Mt, self.unp, self.init, self.tc = z, z, z, z, 0., False, None
        m = [self.ip, self.np]
        self.P = {k: getattr(ph, k) for k in ('kn', 'ks', 'kr', 'ktw', 'tangensOfFrictionAngle', 'maxRollPl', 'maxTwistPl', 'momentRotationLaw', 'cohesionDisablesFriction', 'unpMax')} if ph else None
        from yade import wrapper as w
        a, b = w.Omega().bodies[0].material, w.Omega().bodies[1].material
        self.coh = a.isCohesive and b.isCohesive
        self.an, self.as_ = [min(getattr(a, k), getattr(b, k)) * min(self.r) ** 2 for k in ('normalCohesion', 'shearCohesion')]
        self.broken, self.A, self.S, self.fragile = True, 0., 0., True
        self.bond0 = a.fragile or b.fragile
        if self.coh and self.ip.setCohesionOnNewContacts:
            self.bond()

    def bond(self):
        self.broken, self.A, self.S, self.fragile = False, self.an, self.as_, self.bond0
        self.q0 = [a.copy() for a in self.q]
        self.tc = None

    def go(self):
        np, L, P = self.np, self.law, self.P
        z = np.zeros(3)
        n, un = self.n, self.un
        rotd = None
        if not self.fresh:   # rotations are updated with the geometry, before a new bond may be set
            rotd = rotdiff(np, self.q, self.q0, self.tc if self.ig.creep else None)
        else:
            rotd = z
        if self.now == 1:
            if self.coh:
                self.bond()
                rotd = z
                self.labels.add('cohnow')
            self.now = 2
        if self.init:
            self.bond()
            rotd = z
            self.init = False
        Fn = P['kn'] * (un - self.unp)
        self.near(-Fn, self.A, P['kn'] * 1e-2)
        if -Fn > self.A:
            if self.fragile:
                self.labels.add('tensionbreak')
                return False, z, z
            Fn = -self.A
            self.unp = un + self.A / P['kn']
            self.labels.add('tensionplast')
            if P['unpMax'] >= 0:
                self.near(-self.unp, P['unpMax'], 1.)
                if -self.unp > P['unpMax']:
                    return False, z, z
        nf = Fn
        Fs = self.Fs
        if L.shear_creep:
            Fs = Fs - P['ks'] * Fs * DT / L.creep_viscosity
        tr = self.rot(Fs) - P['ks'] * DT * self.vs(self.ig.avoidGranularRatcheting)
        mx = self.S
        if not P['cohesionDisablesFriction'] or mx == 0:
            mx += Fn * P['tangensOfFrictionAngle']
        mx = max(0., mx)
        N = np.linalg.norm(tr)
        Fs = tr
        self.free = False
        if self.fragile and not self.broken:
            self.near(N, mx, P['ks'] * 1e-2)
        elif Fn < 0 and abs(N - mx) <= 1e-7 * (N + mx + P['ks'] * 1e-4):
            self.judge = False         # at rest after sliding in tension: whether it slides is decided by rounding
        if N > mx:
            self.deep = True
            if self.fragile and not self.broken:
                self.broken, self.A, self.S = True, 0., 0.
                mx = max(0., Fn * P['tangensOfFrictionAngle'])
                self.labels.add('shearbreak')
            Fs = tr * (mx / N)
            dd = (tr - Fs) @ Fs / P['ks']
            if dd > 0 and L.traceEnergy:
                self.diss += dd
            if Fn < 0:
                nf = 0.
                if not self.fragile:
                    self.free = True   # whether tension survives sliding of a ductile bond is not specified
                    self.judge = False
        self.Fs, self.Fn = Fs, nf * n
        M = z
        if P['momentRotationLaw'] and (not self.broken or L.always_use_moment_law):
            self.labels.add('moment')
            if not L.useIncrementalForm:
                t = n @ rotd
                b = rotd - t * n
                if L.twist_creep:
                    import newton
                    visc = L.creep_viscosity * (2 * min(self.r)) ** 2 / 16
                    dq = newton.qrot(-t * DT / visc * n)
                    self.tc = newton.qmul(self.tc if self.tc is not None else np.array([1., 0, 0, 0]), dq)
                self.Mt, self.Mb = t * P['ktw'] * n, b * P['kr']
            else:
                w = self.om[1] - self.om[0]
                tw = (n @ w) * n
                self.Mb = self.rot(self.Mb) - P['kr'] * DT * (w - tw)
                self.Mt = self.rot(self.Mt) - P['ktw'] * DT * tw
            if (P['maxRollPl'] >= 0 or P['maxTwistPl'] >= 0) and self.free:
                raise Reject
            if P['maxRollPl'] >= 0:
                self.Mb, s = self.clip(self.Mb, P['maxRollPl'] * abs(nf))
                self.labels.update(['rollslip'] if s else [])
            if P['maxTwistPl'] >= 0:
                self.Mt, s = self.clip(self.Mt, P['maxTwistPl'] * abs(nf))
            M = self.Mb + self.Mt
        return True, self.Fn + self.Fs, M

    def step(self, *a):
        r = Base.step(self, *a)
        return r

    def attrs(self):
        return {'normalForce': self.Fn, 'shearForce': self.Fs, 'unp': self.unp, 'cohesionBroken': float(self.broken), 'moment_bending': self.Mb, 'moment_twist': self.Mt, 'normalAdhesion': self.A, 'shearAdhesion': self.S}

    def energies(self, L, O):
        out = []
        s = self.scale * 1e-2
        if L.traceEnergy:
            out.append(('plastic dissipation', L.plasticDissipation(), self.diss, s))
        if self.alive and self.judge and all(self.P[k] for k in ('kn', 'ks', 'kr', 'ktw')):
            e = [self.Fn @ self.Fn / self.P['kn'] / 2, self.Fs @ self.Fs / self.P['ks'] / 2, self.Mb @ self.Mb / self.P['kr'] / 2, self.Mt @ self.Mt / self.P['ktw'] / 2]
            out += [('normal energy', L.normElastEnergy(), e[0], s), ('shear energy', L.shearElastEnergy(), e[1], s), ('bending energy', L.bendingElastEnergy(), e[2], s), ('twist energy', L.twistElastEnergy(), e[3], s), ('elastic energy', L.elasticEnergy(), sum(e), s)]
        return out


class ViscEl(Base):
    def begin(self, ph):
        self.Fs = self.Fn = self.np.zeros(3)
        self.P = {k: getattr(ph, k) for k in ('kn', 'ks', 'cn', 'cs', 'tangensOfFrictionAngle', 'mR', 'mRtype')} if ph else None

    def go(self):
        np, P, n = self.np, self.P, self.n
        z = np.zeros(3)
        if self.un < 0:
            return False, z, z
        vs = self.vs(False)
        Fn = max(0., P['kn'] * self.un - P['cn'] * self.vn(False))
        self.deep = P['cn'] > 0
        self.Fn = Fn * n
        self.Fs, sl = self.clip(self.rot(self.Fs) - P['ks'] * DT * vs, Fn * P['tangensOfFrictionAngle'])
        f = self.Fn + self.Fs - (0 if sl else P['cs']) * vs
        m = z
        if P['mR'] > 0:
            w = self.om[0] - self.om[1]
            k = P['mR'] * Fn
            if P['mRtype'] == 2:
                k *= np.linalg.norm(np.cross(self.cp - self.x[0], self.om[0]) - np.cross(self.cp - self.x[1], self.om[1]))
            m = k * w
            self.labels.add('rolling')
        return True, f, m

    attrs = Cundall.attrs


class Luding(Base):
    def begin(self, ph):
        self.Fs = self.Fn = self.np.zeros(3)
        self.P = {k: getattr(ph, k) for k in ('k1', 'kp', 'kc', 'ks', 'G0', 'tangensOfFrictionAngle', 'DeltPMax', 'DeltPNull')} if ph else None
        self.dmax = self.dnull = self.prev = 0.

    def go(self):
        np, P, n, D = self.np, self.P, self.n, self.un
        z = np.zeros(3)
        if D < 0:
            return False, z, z
        if abs(D - self.dmax) < 1e-10 or abs(D - self.prev) < 1e-10:
            raise Tie
        k1, kp, kc = P['k1'], P['kp'], P['kc']
        k2 = kp if self.dmax >= P['DeltPMax'] else k1 + (kp - k1) * self.dmax / P['DeltPMax']
        if D > self.dmax:
            self.dmax = D
            self.dnull = min((1 - k1 / k2) * D, P['DeltPNull'])
        t = k2 * (D - self.dnull)
        self.near(t, k1 * D, k1 * 1e-2) if k2 != k1 and D >= P['DeltPMax'] else None
        if t >= k1 * D:
            F = k1 * D if D < P['DeltPMax'] else t
        elif t > -kc * D:
            F = t
            self.labels.add('unload')
        elif D - self.prev < 0:
            self.near(t, -kc * D, k1 * 1e-2)
            F = -kc * D
            self.dmax = D * (k2 + kc) / (k2 - k1)
            self.dnull = min((1 - k1 / k2) * self.dmax, P['DeltPNull'])
            self.labels.add('kc')
        else:
            F = t
        self.prev = D
        vs = self.vs(False)
        Fn = F - P['G0'] * self.vn(False)
        self.Fn = Fn * n
        self.Fs, sl = self.clip(self.rot(self.Fs) - P['ks'] * DT * vs, abs(Fn) * P['tangensOfFrictionAngle'])
        return True, self.Fn + self.Fs - (0 if sl else P['G0']) * vs, z

    attrs = Cundall.attrs


class Jcfpm(Base):
    tight = ('isCohesive',)

    def begin(self, ph):
        self.Fs = self.Fn = self.np.zeros(3)
        self.P = {k: getattr(ph, k) for k in ('kn', 'ks', 'tanFrictionAngle')} if ph else None
        self.coh, self.FnMax, self.FsMax = None, None, None
        self.d0 = self.un
        from yade import wrapper as w
        a, b = w.Omega().bodies[0].material, w.Omega().bodies[1].material
        A = math.pi * min(self.r) ** 2
        T, C = min(a.tensileStrength, b.tensileStrength), min(a.cohesion, b.cohesion)
        self.coh = self.iter < self.ip.cohesiveTresholdIteration and (T > 0 or C > 0) and a.type == b.type
        self.FnMax, self.FsMax = (T * A, C * A) if self.coh else (0., 0.)

    def breakit(self):
        self.coh, self.FnMax, self.FsMax = False, 0., 0.
        self.labels.add('break')

    def go(self):
        np, P, n = self.np, self.P, self.n
        z = np.zeros(3)
        D = self.un - self.d0
        never = self.law.neverErase
        if abs(D) < 1e-10 and not self.fresh:
            raise Tie
        if D < 0:
            if not self.coh:
                self.Fs = self.Fn = z
                return never, z, z
            if self.FnMax > 0:
                self.near(abs(D), self.FnMax / P['kn'], 1e-2)
                if abs(D) > self.FnMax / P['kn']:
                    self.breakit()
                    self.Fs = self.Fn = z
                    return never, z, z
        Fn = P['kn'] * D
        tr = self.rot(self.Fs) - P['ks'] * DT * self.vs(self.ig.avoidGranularRatcheting)
        mx = self.FsMax + Fn * P['tanFrictionAngle']
        N = np.linalg.norm(tr)
        if self.coh:
            self.near(N, mx, 1e2)
        if N > mx:
            self.deep = True
            tr = tr * (mx / N) if N else z
            if self.coh:
                self.breakit()
                self.labels.add('shearbreak')
                if D < 0:
                    self.Fs = self.Fn = z
                    return never, z, z
        self.Fs, self.Fn = tr, Fn * n
        return True, self.Fn + self.Fs, z

    def attrs(self):
        return {'normalForce': self.Fn, 'shearForce': self.Fs, 'isCohesive': float(self.coh), 'FnMax': self.FnMax, 'FsMax': self.FsMax}


class Inelast(Base):
    """normal and shear behaviour, twist, and bending within its elastic range"""
    def begin(self, ph):
        z = self.np.zeros(3)
        self.Fs, self.Fn, self.Mb, self.mt, self.unp, self.twp = z, z, z, 0., 0., 0.
        self.pT = self.pC = self.pTw = self.isB = self.broken = False
        self.cT, self.cC, self.cTw = [0., 0.], [0., 0.], [0., 0.]
        self.Mt = z
        self.P = {k: getattr(ph, k) for k in ('knT', 'knC', 'ks', 'kr', 'ktw', 'maxElT', 'maxElC', 'maxElB', 'maxElTw', 'kTCrp', 'kTUnld', 'kTwCrp', 'kTwUnld', 'maxExten', 'maxContract', 'maxTwist', 'shearAdhesion', 'tangensOfFrictionAngle')} if ph else None

    def go(self):
        np, P, n = self.np, self.P, self.n
        z = np.zeros(3)
        un = self.un - self.unp
        s = P['knC'] * 1e-3
        if un <= 0:
            self.near(-un, P['maxExten'], 1.)
            if -un > P['maxExten'] or self.isB:
                return False, z, z
            Fn = P['knT'] * un
            self.near(-Fn, P['maxElT'], s) if not self.pT and un else None
            if -Fn > P['maxElT'] or self.pT:
                self.pT = self.pC = True
                self.labels.add('plastT')
                self.deep = True
                if self.cT[0] < un:
                    Fn = P['kTUnld'] * (un - self.cT[0]) + self.cT[1]
                else:
                    Fn = -P['maxElT'] + P['kTCrp'] * (un + P['maxElT'] / P['knT'])
                    self.cT = [un, Fn]
                if Fn > 0:
                    self.unp = self.un
                    self.cT[0] = 1e20
                    P['maxElT'] = 0.
            else:
                self.cT = [un, Fn]
        else:
            self.near(un, P['maxContract'], 1.)
            if un > P['maxContract'] or self.isB:
                self.isB = True
                self.Fs = self.Fn = self.Mb = self.Mt = z
                return self.un > 0, z, z
            Fn = P['knC'] * un
            self.near(Fn, P['maxElC'], s) if not self.pC else None
            if Fn > P['maxElC'] or self.pC:
                self.pC = True
                self.deep = True
                self.labels.add('plastC')
                if self.cC[0] > un:
                    Fn = P['kTUnld'] * (un - self.cC[0]) + self.cC[1]
                else:
                    Fn = P['maxElC'] + P['kTCrp'] * (un - P['maxElC'] / P['knC'])
                    self.cC = [un, Fn]
                if Fn < 0:
                    self.unp = self.un
                    self.cC[0] = -1e20
                    P['maxElC'] = 0.
            else:
                self.cC = [un, Fn]
        tr = self.rot(self.Fs) + P['ks'] * DT * self.vs(self.ig.avoidGranularRatcheting)
        N = np.linalg.norm(tr)
        mx = P['shearAdhesion'] or Fn * P['tangensOfFrictionAngle']
        mx = max(0., mx)
        if not self.broken:
            self.near(N, mx, 1e2) if N else None
        if N > mx:
            if not self.broken:
                self.broken = True
                self.labels.add('shearbreak')
                P['shearAdhesion'] = 0.
                mx = max(0., Fn * P['tangensOfFrictionAngle'])
            tr = tr * (mx / N)
        self.Fs = tr
        tot = rotdiff(np, self.q, self.q0) @ n if not self.fresh else 0.
        if not self.broken:
            t = tot - self.twp
            m = t * P['ktw']
            ch = not self.fresh and (self.Mt @ n) * m < 0
            self.near(abs(t), P['maxTwist'], 1.)
            if abs(t) > P['maxTwist']:
                self.broken = True
                m = 0.
            else:
                self.near(abs(m), P['maxElTw'], 1.) if not self.pTw and m else None
                if abs(m) > P['maxElTw'] or self.pTw:
                    self.pTw = True
                    self.labels.add('plastTw')
                    if abs(abs(self.cTw[0]) - abs(t)) < 1e-12 and t:
                        raise Tie
                    if abs(self.cTw[0]) > abs(t):
                        m = P['kTwUnld'] * (t - self.cTw[0]) + self.cTw[1]
                    else:
                        sg = -1 if t < 0 else 1
                        m = sg * P['maxElTw'] + P['kTwCrp'] * (t - sg * P['maxElTw'] / P['ktw'])
                        self.cTw = [t, m]
                    if ch:
                        P['maxElTw'] = 0.
                        self.twp = tot
                        self.cTw[0] = 0.
                else:
                    self.cTw = [t, m]
            self.Mt = m * n
        else:
            self.Mt = z
        if not self.broken:
            w = self.om[1] - self.om[0]
            self.Mb = self.rot(self.Mb) - P['kr'] * DT * (w - (n @ w) * n)
            if np.linalg.norm(self.Mb) > P['maxElB'] * (1 - 1e-9):
                raise Reject   # plastic bending is not modelled
        elif np.abs(self.Mb).max() > 0:
            pass               # stays as it was
        self.Fn = -Fn * n
        return True, -(self.Fn + self.Fs), self.Mt + self.Mb

    def attrs(self):
        return {'normalForce': self.Fn, 'shearForce': self.Fs, 'moment_twist': self.Mt, 'moment_bending': self.Mb}


class Wire(Base):
    def begin(self, ph):
        self.Fn = self.np.zeros(3)
        self.plast = 0.
        if ph:
            self.D = [list(v) for v in ph.displForceValues]
            self.kn, self.d0 = ph.kn, ph.initD
            if abs(self.d0 - self.un) > 1e-9:
                fail('wire: initial length is off by %g', self.d0 - self.un)
            # the table as given at creation; its first entry is the point from which the wire is (re)loaded
            self.T = [[0., 0.]] + self.D[1:]
            self.peak, self.fpeak = 0., 0.

    def go(self):
        np = self.np
        z = np.zeros(3)
        D = self.un - self.d0
        if abs(D - self.T[-1][0]) < 1e-10:
            raise Tie
        if D < self.T[-1][0]:
            self.labels.add('break')
            self.gone = True
            return False, z, z
        if D < self.peak:
            a = 0
            pts = self.T
            for i in range(1, len(pts)):
                if D > pts[i][0]:
                    lo = pts[i - 1] if pts[i - 1][0] > self.peak or i > 1 else pts[i - 1]
                    k = (pts[i][1] - pts[i - 1][1]) / (pts[i][0] - pts[i - 1][0])
                    F = pts[i - 1][1] + (D - pts[i - 1][0]) * k
                    self.labels.add('seg%d' % i)
                    break
            self.plast = D - F / self.kn
            self.peak, self.fpeak = D, F
        else:
            F = self.kn * (D - self.plast)
            if self.peak < 0:
                self.labels.add('unload')
        F = min(F, 0.)
        self.Fn = F * self.n
        self.deep = True
        return True, self.Fn, z

    def nochance(self):
        raise Reject   # whether a broken wire may link again depends on the collider: not judged

    def attrs(self):
        return {'normalForce': self.Fn}


MODELS = dict(cundall=Cundall, viscofrict=ViscoFrict, frictvisco=FrictVisco, mindlin=Mindlin, hls=Hls, cohfrict=CohFrict, viscel=ViscEl, luding=Luding, jcfpm=Jcfpm, inelast=Inelast, wire=Wire)
