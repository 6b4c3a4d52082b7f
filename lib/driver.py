"""Parent process: generates cases with Hypothesis, runs them in yade child processes, shrinks and confirms failures.

driver.py PROPERTY [quick|thorough] | PROPERTY --replay FILE

A property module in props/ (named by its id in lower case, plus a suffix) defines
  strategy(tier)   Hypothesis strategy of JSON cases                (parent; imports hypothesis itself)
  run(case)        executes a case against yade; raises ylib.Fail when the property is broken; returns
                   {'nt': non-trivial?, 'labels': [...]}            (child)
  RULE, QUICK, THOROUGH (cases per shard), optional: SHARDS, ENV, FIXED (explicit cases), CASE_TIMEOUT, CHILD_CASES,
  CONFIRM, ASSUMPTIONS, COMMAND(tmpdir) for another way to start the child.
"""
import sys, os, json, time, subprocess, tempfile, shutil, select, hashlib, glob, signal, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
PY = '/repo/_build/inst/lib/x86_64-linux-gnu/yade/py'
DEBUG = os.environ.get('VERIF_DEBUG')


class Stop(BaseException):
    pass


class Violation(Exception):
    pass


def find_module(pid):
    hits = [os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, 'props', pid.lower() + '_*.py'))]
    if len(hits) != 1:
        sys.exit('no property module for %s: %s' % (pid, hits))
    return hits[0]


def child_env(mod, tmp):
    env = {'HOME': '/root', 'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LANG': 'C.UTF-8',
           'LC_ALL': 'C.UTF-8', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_WAIT_POLICY': 'passive', 'MPLBACKEND': 'Agg',
           'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore', 'TMPDIR': tmp,
           'PYTHONPATH': '/opt/vp/py3compat/modules:' + PY}
    env.update(getattr(mod, 'ENV', {}))
    return env


class Child:
    """One yade process."""

    def __init__(self, modname, mod, tmp):
        self.modname, self.mod, self.tmp = modname, mod, tmp
        self.p = None
        self.served = 0

    def start(self):
        os.makedirs(self.tmp, exist_ok=True)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        cmd = ['/usr/bin/python3', os.path.join(HERE, 'worker.py'), self.modname]
        log = open(os.path.join(self.tmp, 'child.log'), 'ab') if DEBUG else subprocess.DEVNULL
        self.p = subprocess.Popen(cmd + [str(r1), str(w2)], stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=self.tmp,
                                  env=child_env(self.mod, self.tmp), start_new_session=True, pass_fds=(r1, w2))
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, 'w')
        self.r = r2
        self.buf = b''
        self.served = 0
        x = self.read(180)
        if x != 'ready':
            raise RuntimeError('yade child did not start: %r' % (x,))

    def read(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            rd, _, _ = select.select([self.r], [], [], left)
            if rd:
                d = os.read(self.r, 1 << 16)
                if not d:
                    return 'dead'
                self.buf += d
        line, _, self.buf = self.buf.partition(b'\n')
        return json.loads(line)

    def kill(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.w.close() if not self.w.closed else None
            os.close(self.r)
            self.p = None

    def run(self, case):
        if self.p and self.served >= getattr(self.mod, 'CHILD_CASES', 400):
            self.kill()
        if not self.p:
            self.start()
        self.served += 1
        try:
            self.w.write(json.dumps(case) + '\n')
            self.w.flush()
            x = self.read(getattr(self.mod, 'CASE_TIMEOUT', 60))
        except BrokenPipeError:
            x = 'dead'
        if x == 'dead':
            rc = self.p.wait()
            self.kill()
            return {'ok': False, 'crash': True, 'msg': 'the process running the simulation died (status %s)' % rc}
        if x is None:
            self.kill()
            return {'ok': False, 'hang': True, 'msg': 'no answer within %s s' % getattr(self.mod, 'CASE_TIMEOUT', 60)}
        return x


def confirm(modname, mod, tmp, case, times=3):
    """Replays a failing case in fresh processes; returns the failure message when it fails every time."""
    msg = None
    for _ in range(times):
        c = Child(modname, mod, tmp)
        try:
            r = c.run(case)
        finally:
            c.kill()
        if r.get('ok'):
            return None
        msg = r['msg']
    return msg


def shard(modname, tier, seed, idx, n, deadline, tmp, stop, q):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    mod = __import__(modname)
    child = Child(modname, mod, tmp)
    stats = {'evals': 0, 'rejects': 0, 'nt': set(), 'labels': {}, 'samples': [], 'unconfirmed': [], 'truncated': False}
    fails = {}
    t_fail = [None]
    ok_cache = {}

    def one(case):
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
        if t_fail[0] is not None:
            if time.time() - t_fail[0] > (25 if tier == 'quick' else 90):
                raise Stop()
            if key in ok_cache:
                return ok_cache[key]
        elif stop.is_set():
            stats['truncated'] = True
            raise Stop()
        elif time.time() > deadline:
            stats['truncated'] = True
            raise Stop()
        r = child.run(case)
        stats['evals'] += 1
        if r.get('reject'):
            stats['rejects'] += 1
            return True
        if t_fail[0] is not None:
            ok_cache[key] = bool(r['ok'])
        if not r['ok']:
            fails[key] = (len(json.dumps(case)), case, r['msg'])
            if t_fail[0] is None:
                t_fail[0] = time.time()
                ok_cache[key] = False
                stats['first'] = case
            return False
        for l in r.get('labels', ()):
            stats['labels'][l] = stats['labels'].get(l, 0) + 1
        if r.get('nt'):
            if key not in stats['nt'] and len(stats['samples']) < 2 and len(json.dumps(case)) < 3000:
                stats['samples'].append(case)
            stats['nt'].add(key)
        return True

    try:
        fixed = list(getattr(mod, 'FIXED', []))
        for f in sorted(glob.glob(os.path.join(VERIF, 'regress', modname.split('_')[0].upper(), '*.json'))):
            fixed.append(json.load(open(f))['case'])
        try:
            for i, case in enumerate(fixed):
                if i % n == idx and not one(case):
                    raise Violation()
            strat = mod.strategy(tier)
            count = mod.QUICK if tier == 'quick' else mod.THOROUGH
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 40 if tier == 'quick' else 120

            def test(case):
                if not one(case):
                    raise Violation()   # one place only: Hypothesis tells failures apart by where they are raised
            test = given(strat)(test)
            test = settings(max_examples=count, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(test)
            test = hypothesis.seed(seed * 1000003 + idx)(test)
            test()
        except (Stop, Violation):
            pass
        except hypothesis.errors.Flaky as e:
            stats['flaky'] = str(e)[:200]
        except BaseException as e:
            if type(e).__name__ in ('ExceptionGroup', 'FlakyFailure', 'Flaky', 'FlakyReplay'):
                stats['flaky'] = str(e)[:200]
            elif not fails:
                raise
        found = None
        if fails:
            stop.set()
            order = sorted(fails.values(), key=lambda t: t[0])[:2] + [(0, stats['first'], '')]
            for _, case, _ in order:
                msg = confirm(modname, mod, tmp, case, getattr(mod, 'CONFIRM', 3))
                if msg:
                    found = (case, msg)
                    break
            else:
                stats['unconfirmed'].append(order[0][1])
        stats.pop('first', None)
        q.put((idx, stats, found, None))
    except BaseException as e:
        import traceback
        q.put((idx, stats, None, traceback.format_exc()))
    finally:
        child.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    pid = sys.argv[1]
    modname = find_module(pid)
    mod = __import__(modname)
    base = os.path.join(VERIF, '_work', 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(base, exist_ok=True)
    try:
        return main2(pid, modname, mod, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def known_findings(pid):
    try:
        return [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid]
    except OSError:
        return []


def main2(pid, modname, mod, base):
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        case = json.load(open(sys.argv[3]))
        case = case.get('case', case)
        c = Child(modname, mod, base + '/replay')
        r = c.run(case)
        c.kill()
        print(json.dumps(r, indent=1))
        if not r['ok']:
            print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(sys.argv[3])))
            return 1
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    n = getattr(mod, 'SHARDS', 8)
    limit = getattr(mod, 'LIMIT', 150) if tier == 'quick' else getattr(mod, 'LIMIT_THOROUGH', 1500)
    deadline = t0 + limit
    stop = mp.Event()
    q = mp.Queue()
    ps = [mp.Process(target=shard, args=(modname, tier, seed, i, n, deadline, '%s/s%d' % (base, i), stop, q)) for i in range(n)]
    for p in ps:
        p.start()
    results = []
    for _ in ps:
        results.append(q.get())
    for p in ps:
        p.join()
    results.sort(key=lambda r: r[0])
    errors = [r[3] for r in results if r[3]]
    found = [r[2] for r in results if r[2]]
    nt = set()
    labels = {}
    samples = []
    unconf = []
    for _, s, _, _ in results:
        nt |= s['nt']
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples += s['samples']
        unconf += s['unconfirmed']
    known = []
    for k in known_findings(pid):
        if k.get('status') != 'open':
            continue
        m = confirm(modname, mod, base + '/known', k['case'], 1)
        if m:
            known.append(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(s['evals'] for _, s, _, _ in results), 'distinct_nontrivial': len(nt), 'rule': mod.RULE,
                       'samples': samples[:4], 'labels': dict(sorted(labels.items())),
                       'rejected': sum(s['rejects'] for _, s, _, _ in results), 'shards': n,
                       'stopped_by_time_limit': any(s['truncated'] for _, s, _, _ in results), 'unconfirmed_failures': unconf[:3],
                       'known_findings_seen': [k['what'] for k in known]},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(found)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s %s' % (pid, tier, seed, ev['coverage']['evaluations'], len(nt), ev['wall_s'],
          '(time limit)' if ev['coverage']['stopped_by_time_limit'] and not found else ''))
    for u in unconf:
        print('unconfirmed failure:', json.dumps(u)[:400])
    if found:
        found.sort(key=lambda f: len(json.dumps(f[0])))
        case, msg = found[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        name = '%s-%s.json' % (pid, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
        path = os.path.join(VERIF, 'replays', name)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'message': msg, 'case': case, 'how': 'bin/check %s --replay %s' % (pid, path)}, f, indent=1)
        print(msg[:2000])
        print('case:', json.dumps(case)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
