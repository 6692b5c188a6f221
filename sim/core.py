"""
Seeded search over cases: workers, hang and crash detection, confirmation, shrinking, replay, evidence.

A check module provides
  PROP, LEVEL, RULE, REAL, STUBS, COUNTS {'quick':n,'thorough':n}, LISTS (keys of lists the shrinker may cut)
  make(rng, tier) -> case (JSON document)          pure function of rng
  run(case, ctx)                                  raises Violation; pure function of case and code under test
  simplify(case) -> iterable of simpler cases     (optional)
"""
import os, sys, json, time, random, hashlib, select, signal, traceback, copy, tempfile, shutil

from . import boot

CPU_LIMIT = float(os.environ.get('VERIF_CPU_LIMIT', '90'))     # seconds of CPU per case before it counts as a hang
BASE = None                                                  # scratch directory of this invocation
OUT = os.path.join(boot.VERIF, 'replays')


class Violation(Exception):
    def __init__(self, kind, msg, key=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.key = kind, msg, key


class HarnessError(Exception):
    pass


class Ctx:
    """what a run reports besides its verdict"""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.counters = {}
        self.states = set()
        self.simtime = 0.0
        self.h = hashlib.blake2b(digest_size=12)
        self.nontrivial = False
        self.known = []
        self._scratch = []

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def fault(self, what, n=1):
        self.count('fault:' + what, n)

    def probe(self, what, n=1):
        self.count('probe:' + what, n)

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def log(self, *what):
        """event log; only its digest is kept"""
        self.h.update(repr(what).encode())
        self.h.update(b'\n')

    def scratch(self):
        global BASE
        d = tempfile.mkdtemp(prefix='case', dir=BASE)
        self._scratch.append(d)
        return d

    def cleanup(self):
        for d in self._scratch:
            shutil.rmtree(d, ignore_errors=True)
        self._scratch = []


def base():
    global BASE
    if BASE is None:
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and \
            shutil.disk_usage('/dev/shm').free > 2 << 30 else None
        BASE = tempfile.mkdtemp(prefix='verifsim', dir=root)
    return BASE


def case_rng(seed, prop, idx):
    return random.Random('%s:%s:%s' % (seed, prop, idx))


def execute(mod, case, tier):
    """runs one case in this process; returns a JSON-able result"""
    import numpy as np
    from . import numseam, disk
    ctx = Ctx(tier)
    res = {}
    numseam.SEAM.reset()
    np.random.seed(case.get('npseed', 0) % (1 << 32))
    random.seed(case.get('npseed', 0))
    try:
        mod.run(case, ctx)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'msg': v.msg[:2000], 'key': v.key}
    except HarnessError as e:
        res['harness'] = 'HarnessError: %s' % e
    except MemoryError:
        res['harness'] = traceback.format_exc()[-2000:]
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        res['violation'] = {'kind': 'exception:' + type(e).__name__, 'msg': '%s\n%s' % (e, tb[-1800:]), 'key': None}
    finally:
        if disk.SimDisk.active is not None:
            d = disk.SimDisk.active
            disk.SimDisk.active = None
            os.chdir(d.cwd)
        sys.settrace(None)
        numseam.SEAM.reset()
        ctx.cleanup()
    if 'violation' in res:
        ctx.log('violation', res['violation']['kind'])
    res.update(counters=ctx.counters, states=sorted(ctx.states), simtime=ctx.simtime, digest=ctx.h.hexdigest(),
               nontrivial=bool(ctx.nontrivial), known=ctx.known)
    return res


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


class Worker:
    def __init__(self, fn):
        """fn(line) -> result line; runs in a forked child"""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(w1)
                os.close(r2)
                inp = os.fdopen(r1, 'rb')
                while True:
                    line = inp.readline()
                    if not line:
                        break
                    out = (json.dumps(fn(json.loads(line))) + '\n').encode()
                    while out:
                        n = os.write(w2, out)
                        out = out[n:]
            except BaseException:
                try:
                    os.write(2, traceback.format_exc().encode())
                except Exception:
                    pass
                code = 70
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.buf = b''
        self.task = None
        self.hist = []
        self.cpu0 = 0.0
        self.t0 = 0.0

    def send(self, task):
        self.task = task
        self.cpu0 = cpu_of(self.pid)
        self.t0 = time.time()
        os.write(self.w, (json.dumps(task) + '\n').encode())

    def recv(self):
        """None: nothing complete yet; False: worker is dead"""
        d = os.read(self.r, 1 << 16)
        if not d:
            return False
        self.buf += d
        if b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            return json.loads(line)
        return None

    def hung(self):
        return self.task is not None and cpu_of(self.pid) - self.cpu0 > CPU_LIMIT

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        return self.reap()

    def reap(self):
        try:
            _, st = os.waitpid(self.pid, 0)
        except OSError:
            st = 0
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        return st


WALL_LIMIT = 600.0


def once(mod, cases, tier):
    """runs the cases one after another in a fresh fork; result of the last one"""
    def fn(task):
        res = None
        for c in task['cases']:
            res = execute(mod, c, tier)
        return res
    w = Worker(fn)
    w.send({'cases': cases})
    limit = CPU_LIMIT * max(1, len(cases))
    while True:
        rl, _, _ = select.select([w.r], [], [], 0.5)
        if rl:
            r = w.recv()
            if r is False:
                st = w.reap()
                return dead(st)
            if r is not None:
                w.kill()
                return r
        if cpu_of(w.pid) > limit:
            w.kill()
            return hang()
        if time.time() - w.t0 > WALL_LIMIT:
            w.kill()
            return {'harness': 'wall limit', 'counters': {}, 'states': [], 'simtime': 0, 'digest': '',
                    'nontrivial': False, 'known': []}


def hang():
    return {'violation': {'kind': 'hang', 'msg': 'more than %g s of CPU time in one case' % CPU_LIMIT, 'key': None},
            'counters': {}, 'states': [], 'simtime': 0, 'digest': 'hang', 'nontrivial': False, 'known': []}


def dead(st):
    r = {'counters': {}, 'states': [], 'simtime': 0, 'digest': 'dead', 'nontrivial': False, 'known': []}
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
        r['violation'] = {'kind': 'process died', 'msg': 'signal %d' % os.WTERMSIG(st), 'key': None}
    else:
        r['harness'] = 'worker died with status %d' % st
    return r


def nojit(mod):
    """compiled loops report executed lines less exactly: checks that schedule threads by lines run interpreted"""
    if getattr(mod, 'NOJIT', False):
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass


def known_findings(prop):
    """keys listed as known findings (not the fixed ones) of a property"""
    out = {}
    p = os.path.join(boot.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out[key[len('key='):] if key.startswith('key=') else key] = what
    return out


def search(mod, tier, seed, workers=None, count=None, deadline=None, first=0, progress=None, stop_on=1, want_digests=False):
    """runs cases first..first+count-1; returns (results summary, list of failing (idx, case, result, history))"""
    nojit(mod)
    boot.lib()
    from . import numseam, disk
    numseam.install()
    disk.install()
    base()
    nw = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    count = count if count is not None else mod.COUNTS[tier]
    t_end = time.time() + deadline if deadline else None
    known = known_findings(mod.PROP)

    def fn(task):
        idx = task['idx']
        case = mod.make(case_rng(seed, mod.PROP, idx), tier)
        case = json.loads(json.dumps(case))
        r = execute(mod, case, tier)
        if task.get('want') or 'violation' in r or 'harness' in r:
            r['case'] = case
        r['sig'] = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()
        return r
    ws = []
    nxt = first
    last = first + count
    agg = dict(runs=0, counters={}, states=set(), simtime=0.0, sigs=set(), nontrivial=set(), samples=[], harness=[],
               known={}, digests={}, maxstates=0)
    fails = []
    wanted = set(range(first, first + 400))
    retries = {}
    todo = []

    def feed(w):
        nonlocal nxt
        if todo:
            idx = todo.pop(0)
        else:
            if nxt >= last or (t_end and time.time() > t_end) or len(fails) >= stop_on or len(agg['harness']) >= 3:
                return False
            idx = nxt
            nxt += 1
        w.send({'idx': idx, 'want': idx in wanted and len(agg['samples']) < 3})
        return True

    def take(idx, w, r):
        agg['runs'] += 1
        for k, v in r['counters'].items():
            agg['counters'][k] = agg['counters'].get(k, 0) + v
        agg['states'].update(r['states'])
        agg['simtime'] += r['simtime']
        if want_digests:
            agg['digests'][idx] = r['digest']
        if 'sig' in r:
            agg['sigs'].add(r['sig'])
            if r['nontrivial']:
                agg['nontrivial'].add(r['sig'])
        for k in r['known']:
            agg['known'][k] = agg['known'].get(k, 0) + 1
        if 'harness' in r:
            agg['harness'].append((idx, r['harness'], r.get('case')))
        if 'violation' in r and r['violation'].get('key') in known:
            k = r['violation']['key']
            agg['known'][k] = agg['known'].get(k, 0) + 1
        elif 'violation' in r:
            case = r.get('case')
            if case is None:
                case = json.loads(json.dumps(mod.make(case_rng(seed, mod.PROP, idx), tier)))
            fails.append((idx, case, r, list(w.hist) if w else []))
        elif r['nontrivial'] and len(agg['samples']) < 3 and r.get('case'):
            agg['samples'].append(r['case'])

    live = []
    for _ in range(min(nw, max(1, count))):
        w = Worker(fn)
        if feed(w):
            live.append(w)
        else:
            w.kill()
    while live:
        rl, _, _ = select.select([w.r for w in live], [], [], 1.0)
        for w in list(live):
            if w.r in rl:
                r = w.recv()
                if r is None:
                    continue
                idx = w.task['idx']
                if r is False:
                    st = w.reap()
                    live.remove(w)
                    d = dead(st)
                    if retries.get(idx, 0) < 1:
                        retries[idx] = retries.get(idx, 0) + 1
                        todo.append(idx)
                    else:
                        take(idx, w, d)
                    nw_ = Worker(fn)
                    if feed(nw_):
                        live.append(nw_)
                    else:
                        nw_.kill()
                    continue
                take(idx, w, r)
                w.hist.append(idx)
                w.task = None
                if not feed(w):
                    live.remove(w)
                    w.kill()
            elif w.hung():
                idx = w.task['idx']
                w.kill()
                live.remove(w)
                take(idx, w, hang())
                nw_ = Worker(fn)
                if feed(nw_):
                    live.append(nw_)
                else:
                    nw_.kill()
            elif w.task is not None and time.time() - w.t0 > WALL_LIMIT:
                idx = w.task['idx']
                w.kill()
                live.remove(w)
                agg['harness'].append((idx, 'wall limit', None))
        if progress:
            progress(agg, fails)
    agg['generated'] = nxt - first
    fails.sort(key=lambda f: f[0])
    return agg, fails


# ---------------------------------------------------------------------- shrinking
def _candidates(mod, case):
    for key in getattr(mod, 'LISTS', ()):
        lst = case
        for part in key.split('.'):
            lst = lst.get(part) if isinstance(lst, dict) else None
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                c = copy.deepcopy(case)
                tgt = c
                parts = key.split('.')
                for part in parts[:-1]:
                    tgt = tgt[part]
                tgt[parts[-1]] = lst[:start] + lst[start + size:]
                if len(tgt[parts[-1]]) >= getattr(mod, 'MINLEN', {}).get(key, 0):
                    yield c
            size //= 2
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(copy.deepcopy(case)):
            yield c


def shrink(mod, case, kind, tier, budget=60.0, prefix=()):
    t_end = time.time() + budget
    tried = set()
    steps = 0
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for c in _candidates(mod, case):
            if time.time() > t_end:
                break
            s = json.dumps(c, sort_keys=True)
            if s in tried or s == json.dumps(case, sort_keys=True):
                continue
            tried.add(s)
            r = once(mod, list(prefix) + [c], tier)
            steps += 1
            if r.get('violation', {}).get('kind') == kind:
                case = c
                progress = True
                break
    return case, steps


# ---------------------------------------------------------------------- a check
def check(mod, tier, seed):
    t0 = time.time()
    quick = tier == 'quick'
    deadline = float(os.environ.get('VERIF_DEADLINE', '150' if quick else '3000'))
    shrink_budget = 60.0 if quick else 180.0
    known = known_findings(mod.PROP)
    try:
        agg, fails = search(mod, tier, seed, deadline=deadline)
        extra = {}
        if hasattr(mod, 'finish') and not fails:
            extra = mod.finish(agg, tier, seed, fails) or {}
        rc = 0
        nviol = 0
        for idx, case, res, hist in fails[:1]:
            kind = res['violation']['kind']
            prefix = []
            r = once(mod, [case], tier)
            if r.get('violation', {}).get('kind') != kind:
                r2 = once(mod, [case], tier)
                if r2.get('violation'):
                    r = r2
            if 'violation' in r:
                kind = r['violation']['kind']
            else:
                # depends on what the process did before: carry the cases that preceded it
                prev = [json.loads(json.dumps(mod.make(case_rng(seed, mod.PROP, i), tier))) for i in hist]
                for n in sorted(set([1, 2, 4, 8, 16, 64, len(prev)])):
                    if n > len(prev):
                        break
                    r = once(mod, prev[-n:] + [case], tier)
                    if 'violation' in r:
                        prefix = prev[-n:]
                        kind = r['violation']['kind']
                        break
                else:
                    r = res
            small, steps = case, 0
            if 'violation' in r and kind != 'hang':
                small, steps = shrink(mod, case, kind, tier, shrink_budget, prefix)
                rr = once(mod, prefix + [small], tier)
                if 'violation' in rr:
                    r = rr
                else:
                    small = case
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, '%s-%s-%d.json' % (mod.PROP, seed, idx))
            with open(path, 'w') as f:
                json.dump({'property': mod.PROP, 'tier': tier, 'seed': seed, 'index': idx, 'kind': kind,
                           'message': r.get('violation', res['violation'])['msg'], 'prefix': prefix, 'case': small,
                           'original_case': case, 'shrink_steps': steps}, f, indent=1)
            boot.say('VIOLATION property=%s replay=%s' % (mod.PROP, path))
            boot.say(kind + ': ' + r.get('violation', res['violation'])['msg'])
            rc = 1
            nviol += 1
        for k in sorted(agg['known']):
            boot.say('KNOWN-FINDING: property=%s %s' % (mod.PROP, known.get(k, k)))
        wall = time.time() - t0
        evidence(mod, tier, seed, agg, wall, nviol, extra)
        boot.say('%s %s seed=%s: %d runs, %d distinct non-trivial, %d states, %.1f s%s' % (
            mod.PROP, tier, seed, agg['runs'], len(agg['nontrivial']), len(agg['states']), wall,
            '' if rc == 0 else ', VIOLATION'))
        if rc == 0 and agg['harness']:
            boot.say('HARNESS ERROR', json.dumps(agg['harness'][0])[:3000])
            return 3
        if rc == 0 and agg['runs'] < 0.05 * mod.COUNTS[tier]:
            boot.say('HARNESS ERROR: only %d of %d runs within the time limit' % (agg['runs'], mod.COUNTS[tier]))
            return 3
        return rc
    finally:
        if BASE:
            shutil.rmtree(BASE, ignore_errors=True)


def evidence(mod, tier, seed, agg, wall, nviol, extra):
    faults = {k[6:]: v for k, v in sorted(agg['counters'].items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(agg['counters'].items()) if k.startswith('probe:')}
    other = {k: v for k, v in sorted(agg['counters'].items()) if not k.startswith(('fault:', 'probe:'))}
    cov = {'evaluations': agg['runs'], 'distinct_nontrivial': len(agg['nontrivial']), 'rule': mod.RULE,
           'samples': agg['samples'] or [{'note': 'no non-trivial sample kept'}],
           'runs_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600), 'seeds_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600),
           'simulated_time': round(agg['simtime'], 4), 'simulated_time_unit': getattr(mod, 'TIMEUNIT', 'model time (sum of |dt|) or steps'),
           'faults_injected': faults, 'probes': probes, 'counts': other,
           'distinct_states': len(agg['states']), 'state_measure': getattr(mod, 'STATE_MEASURE', 'digests recorded by the case'),
           'real_components': mod.REAL, 'stub_components': mod.STUBS}
    cov.update(extra)
    doc = {'property': mod.PROP, 'tier': tier, 'seed': int(seed), 'level': mod.LEVEL, 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % mod.PROP)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, mod.PROP + '.json'))


def replay(path):
    import importlib
    with open(path) as f:
        doc = json.load(f)
    mod = importlib.import_module('sim.checks.' + doc['property'].lower())
    nojit(mod)
    boot.lib()
    from . import numseam, disk
    numseam.install()
    disk.install()
    base()
    try:
        r = once(mod, doc.get('prefix', []) + [doc['case']], doc['tier'])
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    if 'violation' in r:
        boot.say('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(path)))
        boot.say(r['violation']['kind'] + ': ' + r['violation']['msg'])
        boot.say('event log digest', r['digest'])
        return 1
    if 'harness' in r:
        boot.say('HARNESS ERROR', r['harness'])
        return 3
    boot.say('no violation; event log digest', r['digest'])
    return 0
