"""Distributed (MPI) runs give the trajectories of a monolithic run."""
from ylib import check, fail, Reject
import json, os, sys, math

RULE = 'a case is non-trivial when spheres of different subdomains, or of a subdomain and the master, are in contact at some time'
QUICK, THOROUGH = 90, 1500
SHARDS = 4
CASE_TIMEOUT = 120
ASSUMPTIONS = ['bodies: spheres in subdomains, boxes and spheres of the master; not periodic, no clumps; every subdomain owns at least one body; with merging and splitting at each collision detection, contacts have no memory (no friction), since contact histories are not sent back',
               'O.sceneToString and O.stringToScene are replaced by an equivalent through files, because they cannot return binary data under Python 3; the check is skipped (no case judged) only if mpirun itself cannot start']
HELPERS = {}


def strategy(tier):
    from hypothesis import strategies as st
    c = st.integers(-30, 30).map(lambda x: x / 10)
    v3 = st.tuples(c, c, c).map(list)
    z = st.just([0., 0., 0.])
    ball = st.fixed_dictionaries({'pos': v3, 'r': st.integers(4, 10).map(lambda x: x / 10), 'vel': st.one_of(z, v3), 'ang': st.one_of(z, v3), 'sub': st.integers(0, 2)})
    return st.fixed_dictionaries({'np': st.sampled_from([2, 3, 3, 4]), 'balls': st.lists(ball, min_size=3, max_size=14), 'slab': st.booleans(), 'gravity': st.one_of(z, v3), 'floor': st.sampled_from([None, 'fixed', 'moving', 'dynamic']),
                                  'master': st.sampled_from([None, 'dynamic', 'fixed', 'facet']), 'split': st.booleans(), 'steps': st.lists(st.integers(1, 30), min_size=1, max_size=3), 'verlet': st.sampled_from([.02, .1, .4]), 'damping': st.sampled_from([0., .2]),
                                  'first': st.booleans(), 'dt': st.sampled_from([.002, .005]), 'merge': st.booleans(), 'erase': st.booleans(), 'com': st.sampled_from(['cpp', 'cpp', 'py', 'pickle'])})


def scene(case, O, mpi):
    """same scene in every process; subdomain numbers are only set in the distributed one"""
    from yade import wrapper as w, utils
    from minieigen import Vector3
    O.reset()
    O.materials.append(w.FrictMat(young=2e3, poisson=.3, density=1, frictionAngle=0 if case['split'] else .5))
    ns = case['np'] - 1
    balls = case['balls']
    masters = []

    def box():
        if case['floor']:
            b = utils.box(Vector3(0, 0, -3.6), Vector3(6, 6, .4), fixed=case['floor'] != 'dynamic', material=0)
            if case['floor'] == 'moving':
                b.state.vel = Vector3(.3, 0, .8)
            if case['floor'] == 'dynamic':
                b.state.mass, b.state.blockedDOFs = 20., 'XYZ'
            b.subdomain = 0
            masters.append(O.bodies.append(b))
        if case['master']:
            if case['master'] == 'facet':
                b = utils.facet([Vector3(-4, -3, -1), Vector3(5, -2, -1.2), Vector3(0, 4, .6)], material=0)
                b.state.vel = Vector3(0, .2, .5)
            else:
                b = utils.sphere(Vector3(0, .1, 0), 1.2, fixed=case['master'] == 'fixed', material=0)
            b.subdomain = 0
            masters.append(O.bodies.append(b))
    if case['first']:
        box()
    for k, d in enumerate(balls):
        b = utils.sphere(Vector3(*d['pos']), d['r'], material=0)
        b.state.vel, b.state.angVel = Vector3(*d['vel']), Vector3(*d['ang'])
        sub = k % ns if k < ns else (min(ns - 1, int((d['pos'][0] + 3) / 6.001 * ns)) if case['slab'] else d['sub'] % ns)
        if mpi:
            b.subdomain = sub + 1
        O.bodies.append(b)
    if not case['first']:
        box()
    O.engines = [w.ForceResetter(), w.InsertionSortCollider([w.Bo1_Sphere_Aabb(), w.Bo1_Box_Aabb(), w.Bo1_Facet_Aabb()], verletDist=case['verlet'], label='collider'),
                 w.InteractionLoop([w.Ig2_Sphere_Sphere_ScGeom(), w.Ig2_Box_Sphere_ScGeom(), w.Ig2_Facet_Sphere_ScGeom()], [w.Ip2_FrictMat_FrictMat_FrictPhys()], [w.Law2_ScGeom_FrictPhys_CundallStrack()]),
                 w.NewtonIntegrator(damping=case['damping'], gravity=Vector3(*case['gravity']), label='newton')]
    O.dt = case['dt']
    return masters


def states(O, n):
    return [[list(b.state.pos), list(b.state.vel), list(b.state.angVel), [b.state.ori[k] for k in range(4)]] for b in (O.bodies[i] for i in range(n))]


def distributed(case, mp, O):
    masters = scene(case, O, True)
    n = len(O.bodies)
    O.splitted = O.splittedOnce = False
    mp.ERASE_REMOTE = case['erase']
    mp.OPTIMIZE_COM = case['com'] != 'pickle'
    mp.USE_CPP_MPI = case['com'] == 'cpp'
    out = []
    for k, m in enumerate(case['steps']):
        mp.mpirun(m, case['split'])
        f = [list(O.forces.f(i, True)) + list(O.forces.t(i, True)) for i in masters] if mp.rank == 0 else None
        last = k == len(case['steps']) - 1
        if case['merge'] and case['split'] or last:
            mp.mergeScene()
            if mp.rank == 0:
                out.append({'iter': O.iter, 'st': states(O, n), 'f': f})
        elif mp.rank == 0:
            out.append({'iter': O.iter, 'f': f})
        if not case['split'] and not last and O.iter < sum(case['steps'][:k + 1]):
            # the run stops where contact detection is needed
            mp.mergeScene()
            if mp.rank == 0:
                out.append({'iter': O.iter, 'st': states(O, n), 'f': f})
            break
    return out


class Helper:
    def __init__(self, n):
        import subprocess, tempfile
        self.dir = tempfile.mkdtemp()
        a, b = os.path.join(self.dir, 'in'), os.path.join(self.dir, 'out')
        os.mkfifo(a)
        os.mkfifo(b)
        env = dict(os.environ, OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1', TMPDIR=self.dir)
        helper = os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'mpihelper.py')
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        self.p = subprocess.Popen(['mpirun', '--allow-run-as-root', '--oversubscribe', '--bind-to', 'none', '--mca', 'btl', 'self,vader', '-np', str(n), '/usr/bin/python3', helper, a, b, str(os.getpid())],
                                  stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=env)
        self.w = open(a, 'w')
        self.r = os.open(b, os.O_RDONLY | os.O_NONBLOCK)
        self.buf = b''

    def ask(self, case, timeout):
        import select, time
        self.w.write(json.dumps(case) + '\n')
        self.w.flush()
        end = time.time() + timeout
        while b'\n' not in self.buf:
            if time.time() > end:
                return None
            if self.p.poll() is not None:
                return 'dead'
            rd, _, _ = select.select([self.r], [], [], .2)
            if rd:
                d = os.read(self.r, 1 << 16)
                if d:
                    self.buf += d
                else:
                    time.sleep(.01)
        line, _, self.buf = self.buf.partition(b'\n')
        return json.loads(line)

    def close(self):
        import shutil
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run(case):
    import numpy as np
    from yade import wrapper as w
    if any(np.linalg.norm(np.array(a['pos']) - np.array(b['pos'])) < .3 for k, a in enumerate(case['balls']) for b in case['balls'][:k]):
        raise Reject
    n = case['np']
    if len(case['balls']) < n - 1:
        raise Reject
    if n not in HELPERS:
        HELPERS[n] = Helper(n)
    r = HELPERS[n].ask(case, 20)
    if r is None or r == 'dead':
        log = open(os.path.join(HELPERS[n].dir, 'log')).read()[-1500:]
        HELPERS.pop(n).close()
        fail('the distributed run %s\n%s', 'ended' if r else 'gave no answer within 20 s', log)
    if isinstance(r, dict):
        HELPERS.pop(n).close()
        fail('the distributed run failed: %s %s', r['error'], r['tb'])
    O = w.Omega()
    masters = scene(case, O, False)
    nb = len(O.bodies)
    ns = n - 1
    touch = False
    sub = {}
    k0 = 0
    for i in range(nb):
        if i in masters:
            sub[i] = 0
        else:
            d = case['balls'][k0]
            sub[i] = 1 + (k0 % ns if k0 < ns else (min(ns - 1, int((d['pos'][0] + 3) / 6.001 * ns)) if case['slab'] else d['sub'] % ns))
            k0 += 1
    for x in r:
        check(x['iter'] >= O.iter, 'iteration %d after %d', x['iter'], O.iter)
        while O.iter < x['iter']:
            O.step()
            touch = touch or any(sub[i.id1] != sub[i.id2] for i in O.interactions)
        ref = states(O, nb)
        if not np.all(np.isfinite(np.array(sum([sum(s, []) for s in ref], [])))):
            raise Reject
        if 'st' in x:
            for i in range(nb):
                for a, b, what in zip(x['st'][i], ref[i], ('position', 'velocity', 'angular velocity', 'orientation')):
                    d = max(abs(p - q) for p, q in zip(a, b))
                    check(d <= 1e-7 * (1 + max(map(abs, b))), 'after %d steps the %s of body %d (subdomain %d) is %s in the distributed run and %s in a monolithic one', x['iter'], what, i, sub[i], a, b)
        for i, f in zip(masters, x['f']):
            g = list(O.forces.f(i, True)) + list(O.forces.t(i, True))
            if O.iter:
                check(max(abs(p - q) for p, q in zip(f, g)) <= 1e-6 * (1 + max(map(abs, g))), 'after %d steps the force and torque on body %d of the master is %s, %s in a monolithic run', x['iter'], i, f, g)
    if case['split']:
        check(r[-1]['iter'] == sum(case['steps']), '%d steps were run instead of %d', r[-1]['iter'], sum(case['steps']))
    return {'nt': touch, 'labels': ['np%d' % n, 'com_' + case['com'], 'master_%s' % case['master'], 'floor_%s' % case['floor'], 'split' if case['split'] else 'stop', 'steps%d' % min(60, r[-1]['iter'] // 10 * 10)]}
