"""The simulation loop: which engines run at which step and in which order, step and time counters, stopping."""
from ylib import check, fail, Reject
import builtins

RULE = 'a case is non-trivial when some engine with a period longer than one step, or a change of the engine list, a dead engine or sub-stepping came into play and at least 5 steps were completed'
QUICK, THOROUGH = 1100, 20000
CASE_TIMEOUT = 30
ASSUMPTIONS = ['ParallelEngine is run with one thread, because Python commands of its other threads would wait for the interpreter that O.step() holds', 'wall-clock periods are not judged; an engine inserted after the first step has initRun=True; the first call of an engine counts as one of its nDo activations; O.engines is not set to an empty list from inside a step, nor replaced between the prologue and the first engine of a sub-stepped step',
               'O.run is waited for (O.wait); what O.pause() leaves in progress is not judged, except when it is called from inside the loop']


def strategy(tier):
    from hypothesis import strategies as st
    per = st.fixed_dictionaries({'iterPeriod': st.sampled_from([0, 1, 1, 2, 3, 5, 7]), 'virt': st.sampled_from([0, 0, 0, .001, .0025, .01]), 'nDo': st.sampled_from([-1, -1, -1, 1, 3]), 'initRun': st.booleans(),
                                 'first': st.sampled_from([0, 0, 0, 0, 4]), 'dead': st.sampled_from([False, False, False, True])})
    eng = st.one_of(per, per, st.fixed_dictionaries({'par': st.lists(st.lists(per, min_size=1, max_size=2), min_size=1, max_size=3)}))
    engs = st.lists(eng, min_size=1, max_size=4)
    op = st.one_of(st.fixed_dictionaries({'o': st.just('step'), 'n': st.integers(1, 6)}), st.fixed_dictionaries({'o': st.just('step'), 'n': st.integers(1, 12)}), st.fixed_dictionaries({'o': st.just('run'), 'n': st.integers(1, 15)}),
                   st.fixed_dictionaries({'o': st.just('runto'), 'n': st.integers(1, 12)}), st.fixed_dictionaries({'o': st.just('runtime'), 'n': st.integers(1, 12), 'frac': st.sampled_from([0, .3, .5, .9])}),
                   st.fixed_dictionaries({'o': st.just('dt'), 'dt': st.sampled_from([1e-3, 5e-4, 1.7e-3])}), st.fixed_dictionaries({'o': st.just('dead'), 'i': st.integers(0, 9), 'v': st.booleans()}),
                   st.fixed_dictionaries({'o': st.just('sub'), 'v': st.booleans()}), st.fixed_dictionaries({'o': st.just('engines'), 'e': engs}), st.fixed_dictionaries({'o': st.just('later'), 'e': engs, 'at': st.integers(0, 3)}),
                   st.fixed_dictionaries({'o': st.just('pause'), 'in': st.integers(0, 6), 'n': st.integers(7, 12)}), st.just({'o': 'reset'}), st.just({'o': 'reload'}), st.fixed_dictionaries({'o': st.just('period'), 'i': st.integers(0, 9), 'p': st.integers(1, 4)}))
    return st.fixed_dictionaries({'engines': engs, 'ops': st.lists(op, min_size=2, max_size=9), 'periodic': st.booleans(), 'dt': st.sampled_from([1e-3, 2.5e-4])})


class Eng:
    """reference model of an engine that acts periodically"""

    def __init__(self, d, late):
        self.name = None
        self.ip, self.vp, self.nDo, self.init, self.first, self.dead = d['iterPeriod'], d['virt'], d['nDo'], d['initRun'] or late, 0 if late else d['first'], d['dead']
        self.nDone = self.il = 0
        self.vl = 0.
        self.cmd = None

    def fires(self, it, t):
        if self.dead:
            return False
        if self.first > 0 and self.nDone == 0:
            run = it == self.first
            if run:
                self.mark(it, t)
            return run
        if it < self.il:
            self.nDone = 0
        due = (self.vp > 0 and t - self.vl >= self.vp) or (self.ip > 0 and it - self.il >= self.ip)
        if (self.nDo < 0 or self.nDone < self.nDo) and due:
            self.mark(it, t)
            return True
        if self.nDone == 0:
            self.mark(it, t)
            return self.init
        return False

    def mark(self, it, t):
        self.il, self.vl, self.nDone = it, t, self.nDone + 1


class Model:
    def __init__(self, O, w, case):
        self.O, self.w = O, w
        self.it, self.t, self.dt = 0, 0., case['dt']
        self.sub = -1
        self.substepping = False
        self.count = 0
        self.exp = []
        self.h = 10.
        self.periodic = case['periodic']
        self.g = .5
        self.engs, real = self.make(case['engines'], False)
        self.next = None
        O.engines = real
        self.stopIter = 0
        self.stopTime = 0
        self.pauseAt = None

    def make(self, ds, late):
        out, real = [], []
        for d in ds:
            if 'par' in d:
                groups, rg = [], []
                for g in d['par']:
                    a, b = [], []
                    for x in g:
                        m, r = self.one(x, late)
                        a.append(m)
                        b.append(r)
                    groups.append(a)
                    rg.append(b)
                out.append(groups)
                pe = self.w.ParallelEngine(rg)
                pe.ompThreads = 1
                real.append(pe)
            else:
                m, r = self.one(d, late)
                out.append(m)
                real.append(r)
        return out, real

    def one(self, d, late):
        m = Eng(d, late)
        m.name = 'e%d' % self.count
        self.count += 1
        r = self.w.PyRunner(command='vp_log("%s")' % m.name, iterPeriod=m.ip, virtPeriod=m.vp, nDo=m.nDo, initRun=m.init, firstIterRun=m.first, dead=m.dead, label=m.name)
        return m, r

    def flat(self):
        out = []
        for e in self.cur():
            if isinstance(e, list):
                for g in e:
                    out += g
            else:
                out.append(e)
        return out

    def cur(self):
        return self.next if self.next is not None else self.engs

    def prologue(self):
        if self.periodic:
            self.h *= 1 + self.dt * self.g

    def act(self, e):
        if isinstance(e, list):
            names = [[m.name for m in g if m.fires(self.it, self.t)] for g in e]
            if any(names):
                self.exp.append((self.it, names))
        elif e.fires(self.it, self.t):
            self.exp.append((self.it, [[e.name]]))
            if e.cmd:
                e.cmd(e)

    def epilogue(self):
        self.it += 1
        self.t += self.dt

    def step(self):
        """what O.step() has to do"""
        if self.next is not None and (self.sub < 0):
            self.engs, self.next = self.next, None
        if not self.substepping and self.sub < 0:
            self.sub = 0
            self.prologue()
            for e in self.engs:
                self.act(e)
            self.epilogue()
            self.sub = -1
            return
        last = self.sub if self.substepping else len(self.engs)
        for s in range(self.sub, last + 1):
            if s == -1:
                self.prologue()
            elif s < len(self.engs):
                self.act(self.engs[s])
            else:
                self.epilogue()
                self.sub = -2
        self.sub = self.sub + 1


def run(case):
    from yade import wrapper as w
    from minieigen import Matrix3
    O = w.Omega()
    O.reset()
    O.dt = case['dt']
    if case['periodic']:
        O.periodic = True
        O.cell.setBox(10, 10, 10)
        O.cell.velGrad = Matrix3(.5, 0, 0, 0, 0, 0, 0, 0, 0)
        O.engines = [w.NewtonIntegrator()]  # takes the gradient over
        O.step()
        O.resetTime()
    log = []

    def vp_log(n):
        log.append((w.Omega().iter, n))
    builtins.vp_log = vp_log
    builtins.Omega = w.Omega
    M = Model(O, w, case)
    special = False
    steps = 0

    def pairs():
        out = []
        for e, r in zip(M.cur(), O.engines):
            if isinstance(e, list):
                for g, h in zip(e, r.slaves):
                    out += list(zip(g, h if hasattr(h, '__len__') else [h]))
            else:
                out.append((e, r))
        return out

    def go(n):
        import time
        O.run(n)
        end = time.time() + 8
        while O.running:
            time.sleep(.001)
            if time.time() > end:
                O.pause()
                time.sleep(.2)
                fail('a run that has to stop at step %d (time %g) is still running after 8 s, at step %d (time %g); stopAtIter=%d stopAtTime=%g', M.it, M.t, O.iter, O.time, O.stopAtIter, O.stopAtTime)
        O.wait()

    def compare(where):
        # same engines, in order; inside a ParallelEngine the groups may interleave
        k = 0
        for it, groups in M.exp:
            want = sum(len(g) for g in groups)
            got = log[k:k + want]
            check(len(got) == want and all(i == it for i, _ in got), '%s: expected at step %d: %s; next in the log: %s', where, it, groups, log[k:k + 6])
            for g in groups:
                check([n for _, n in got if n in g] == g, '%s: at step %d the engines %s should run in this order, got %s', where, it, g, got)
            k += want
        check(k == len(log), '%s: unexpected run of engine(s) %s (steps done: %d)', where, log[k:k + 6], M.it)
        del log[:]
        del M.exp[:]
        check(O.iter == M.it and O.subStep == M.sub, '%s: O.iter=%d, O.subStep=%d; expected %d, %d', where, O.iter, O.subStep, M.it, M.sub)
        check(O.time == M.t, '%s: O.time=%.17g, the sum of the steps is %.17g', where, O.time, M.t)
        if case['periodic']:
            h = O.cell.hSize[0, 0]
            check(abs(h - M.h) <= 1e-12 * M.h, '%s: the periodic cell was integrated a wrong number of times: size %.15g, expected %.15g', where, h, M.h)
        check(not O.running, '%s: still running', where)
        for e, r in pairs():
            check(r.label == e.name, '%s: engine %s found where %s is expected', where, r.label, e.name)
            check(r.nDone == e.nDone and r.dead == e.dead, '%s: engine %s has nDone=%d dead=%s, expected %d %s', where, e.name, r.nDone, r.dead, e.nDone, e.dead)

    def finish_running(limit):
        """model of the loop of O.run()"""
        nonlocal steps
        M.substepping = False
        n = 0
        while True:
            t0 = M.t
            M.step()
            n += 1
            steps += 1
            if M.stopIter > 0 and M.it == M.stopIter:
                return
            if M.stopTime > 0 and t0 < M.stopTime <= M.t:
                return
            if M.pauseAt is not None and M.it > M.pauseAt:
                M.pauseAt = None
                return
            if n > limit:
                raise Reject

    for k, op in enumerate(case['ops']):
        o = op['o']
        where = 'op %d (%s)' % (k, o)
        if o == 'step':
            for _ in range(op['n']):
                O.step()
                M.step()
                steps += 1
            special = special or M.sub >= 0
        elif o == 'run':
            M.stopIter = M.it + op['n']
            finish_running(60)
            go(op['n'])
        elif o == 'runto':
            M.stopIter = M.it + op['n']
            finish_running(60)
            O.stopAtIter = M.stopIter
            go(-1)
        elif o == 'runtime':
            M.stopTime = M.t + (op['n'] - 1 + op['frac']) * M.dt
            if M.stopTime <= 0:
                continue
            if M.stopTime <= M.t or M.stopIter > M.it:
                M.stopTime = M.t + .5 * M.dt
            O.stopAtTime = M.stopTime
            finish_running(60)
            go(-1)
        elif o == 'dt':
            O.dt = M.dt = op['dt']
        elif o in ('dead', 'period'):
            P = pairs()
            e, r = P[op['i'] % len(P)]
            if o == 'dead':
                e.dead = op['v']
                r.dead = op['v']
            else:
                e.ip = op['p']
                r.iterPeriod = op['p']
            special = True
        elif o == 'sub':
            if M.next is not None and M.sub == 0:
                continue
            O.subStepping = op['v']
            M.substepping = op['v']
        elif o == 'engines':
            if M.sub == 0:
                continue
            m, r = M.make(op['e'], True)
            O.engines = r
            if M.sub < 0:
                M.engs, M.next = m, None
            else:
                M.next = m
            check(len(O.engines) == len(r), '%s: O.engines has %d engines, just set to %d', where, len(O.engines), len(r))
            special = True
        elif o == 'later':
            # an engine replaces the list from inside the step; it takes effect with the next one
            if M.sub >= 0 or M.next is not None:
                continue
            m, r = M.make(op['e'], True)
            trig = {'iterPeriod': 1, 'virt': 0, 'nDo': 1, 'initRun': True, 'first': 0, 'dead': False}
            tm, tr = M.one(trig, True)
            pos = op['at'] % (len(M.engs) + 1)

            def cmd(e, m=m):
                M.next = m
            tm.cmd = cmd
            tr.command = 'vp_log("%s"); Omega().engines = vp_new; vp_seen.append(len(Omega().engines))' % tm.name
            builtins.vp_new = r
            builtins.vp_seen = seen = []
            O.engines = O.engines[:pos] + [tr] + O.engines[pos:]
            M.engs = M.engs[:pos] + [tm] + M.engs[pos:]
            ss = M.substepping
            O.subStepping = M.substepping = False
            O.step()
            M.step()
            check(seen == [len(r)], '%s: inside the step, O.engines does not return the list just set', where)
            O.step()
            M.step()
            O.subStepping = M.substepping = ss
            steps += 2
            special = True
        elif o == 'pause':
            if M.sub >= 0 or M.next is not None:
                continue
            trig = {'iterPeriod': 1, 'virt': 0, 'nDo': -1, 'initRun': True, 'first': 0, 'dead': False}
            tm, tr = M.one(trig, True)
            at = M.it + op['in']
            tr.command = 'vp_log("%s")\nif Omega().iter == %d: Omega().pause()' % (tm.name, at)
            M.pauseAt = at
            M.stopIter = M.it + op['n']
            M.stopTime = 0
            O.stopAtTime = 0
            M.engs = [tm] + M.engs
            O.engines = [tr] + O.engines
            finish_running(60)
            go(op['n'])
            M.pauseAt = None
            compare(where)
            O.engines = O.engines[1:]
            M.engs = M.engs[1:]
        elif o == 'reset':
            if M.sub >= 0:
                continue
            O.resetTime()
            M.it, M.t = 0, 0.
        elif o == 'reload':
            if M.sub >= 0 or M.next is not None:
                continue
            O.saveTmp(quiet=True)
            O.loadTmp(quiet=True)
        compare(where)
    return {'nt': bool(steps >= 5 and (special or any(e.ip > 1 or e.vp for e in M.flat()))), 'labels': ['op_' + o['o'] for o in case['ops']] + (['periodic'] if case['periodic'] else [])}
