"""C02: resuming from a checkpoint continues the very same evolution."""
import copy, os, pickle
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from .c03 import evo_simplify

PROP = 'C02'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 420, 'thorough': 14000}
LISTS = ['calls', 'crashes']
MINLEN = {'calls': 1, 'crashes': 1}
RULE = ('a case is a chain and a seeded sequence of evolution calls with checkpoints; the run is killed right after (and some time after) checkpoints of the run, restored '
        'from what is on disk and continued, up to three times in a row, and compared with the run that was never interrupted; non-trivial if at least one restart was compared')
REAL = ['lib.mpslib.engines.TimeEvolutionEngine', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.utils.fileio', 'pickle', 'numpy/scipy']
STUBS = ['files (simulated disk)', 'stdout', 'process death (surviving files only; objects rebuilt from them)']
STATE_MEASURE = 'distinct (method, interval, retention, step count at crash, bond dimension profile at crash)'
TIMEUNIT = 'simulated time (units of 1/J)'


def make(rng, tier):
    big = tier == 'thorough'
    sp = evo.spec(rng, 2, 6 if big else 5, 4, maxdim=100 if big else 60)
    sp['solver'] = rng.choice(['LAN', 'LAN', 'LAN', 'SEXPMV', 'RK45'])
    mixed = rng.random() < 0.15
    trunc = rng.random() < 0.5
    dt0 = rng.choice(evo.DT_REAL + [-0.05])
    calls = []
    for _ in range(rng.randint(1, 3)):
        m = sp['method'] if not mixed else rng.choice(['tebd', 'tdvp'])
        calls.append({'m': m, 'dt': evo.dt_json(dt0 if rng.random() < 0.7 else rng.choice(evo.DT_REAL)),
                      'n': rng.randint(1, 8) if m == 'tebd' else rng.randint(1, 4), 'cp': rng.choice([1, 1, 2, 2, 3, 4]), 'keep': rng.random() < 0.5,
                      'D': rng.choice([2, 3, 4, None]) if trunc else None, 'th': rng.choice([1e-14, 1e-6, 1e-3]) if trunc else 1e-14,
                      'verbose': rng.choice([0, 1]), 'look': rng.choice([None, None, 'measure', 'position', 'schmidt', 'save'])})
    if rng.random() < 0.12:
        # small chains, many steps
        evo.shorten(rng, sp)
        for c in calls:
            c['n'] = rng.choice([9, 10, 11, 14, 23])
            c['cp'] = rng.choice([1, 2, 3, 5, 7, 10])
    return {'spec': sp, 'calls': calls, 'crashes': [[round(rng.random(), 4), round(rng.random(), 4), rng.choice(['kill', 'power'])] for _ in range(rng.randint(1, 3))],
            'npseed': rng.randrange(1 << 30)}


def schedule(c, it):
    return [k for k in range(it, it + c['n']) if k > 0 and k % c['cp'] == 0]


def perform(eng, sp, calls, upto=None):
    """runs calls on an engine; yields nothing, the journal tells the rest"""
    for c in calls:
        spx = sp
        evo.steps(eng, spx, evo.dt_of(c['dt']), c['n'], c['D'], c['th'], c['cp'], c['keep'], c['verbose'], c['m'])
        if c.get('look') == 'measure':
            eng.measureLocal([np.diag(np.arange(1.0, t.shape[2] + 1)) for t in eng.mps.tensors])
        elif c.get('look') == 'position':
            eng.mps.position(1)
        elif c.get('look') == 'schmidt':
            eng.mps.getSchmidt(1)
        elif c.get('look') == 'save':
            eng.save('manual')


def versions(d, names):
    """journal positions at which a checkpoint (one of names) becomes complete: list of (position, name, bytes)"""
    out, have = [], {}
    for at in range(1, len(d.journal) + 1):
        if d.journal[at - 1][0] not in ('rename', 'close', 'fsync', 'link'):
            continue
        files = d.crash_state(at, None, 'kill')
        for n in names:
            b = files.get(n)
            if b and have.get(n) != b:
                try:
                    o = pickle.loads(b)
                except Exception:
                    continue
                have[n] = b
                out.append((at, n, b, o.iteration))
    return out


def summary(eng):
    return {'v': dense.vec(eng.mps), 'it': eng.iteration, 't': eng.time, 'tw': eng.truncatedWeight, 'D': list(eng.mps.D)}


def same(a, b, tol, what, kind, wtol=1e-8):
    need(a['it'] == b['it'], kind, '%s: %s steps, uninterrupted run has %s' % (what, a['it'], b['it']))
    need(abs(a['t'] - b['t']) < 1e-10, kind, '%s: time %.12g, uninterrupted run has %.12g' % (what, a['t'], b['t']))
    need(abs(a['tw'] - b['tw']) < wtol, kind, '%s: truncated weight %.12g, uninterrupted run has %.12g' % (what, a['tw'], b['tw']))
    need(dense.close(a['v'], b['v'], tol), kind, '%s: state deviates by %s' % (what, dense.dev(a['v'], b['v'])))


def run(case, ctx):
    L = boot.lib()
    sp = case['spec']
    calls = case['calls']
    tol = 1e-7 if all(c['m'] == 'tebd' for c in calls) else 3 * evo.TOL[sp['solver']]
    with disk.SimDisk(ctx.scratch()) as d:
        eng, mps0, ham = evo.build(L, sp)
        v0 = dense.vec(eng.mps)
        perform(eng, sp, calls)
        final = summary(eng)
    # the schedule: name -> (call, steps done)
    sched, it = {}, 0
    starts = []
    for i, c in enumerate(calls):
        starts.append(it)
        for k in schedule(c, it):
            sched[evo.cpfile('run', c['m'], k)] = (i, k + 1)
        it += c['n']
    vs = versions(d, list(sched))
    seen = {}
    for at, n, b, itn in vs:
        seen[n] = (at, b)
    for n in sched:
        need(n in seen, 'missing checkpoint', 'no complete checkpoint %s ever on disk (%s)' % (n, sched[n]))
    trunc = check_states(L, sp, ham, v0, calls, sched, seen, tol, ctx)
    clear = trunc != 'unclear'
    order = [n for n in sched]
    cur_vs, cur_disk = vs, d
    base = {n: seen[n][1] for n in seen}
    compared = 0
    done_it = 0
    prev = None
    for ci, (x, y, model) in enumerate(case['crashes']):
        cands = [v for v in cur_vs if sched[v[1]][1] > done_it]
        if not cands:
            break
        pick = cands[min(len(cands) - 1, int(x * len(cands)))]
        at, n, b, _ = pick
        # the crash happens anywhere before the next checkpoint is complete
        later = [v[0] for v in cur_vs if v[0] > at]
        top = later[0] - 1 if later else len(cur_disk.journal)
        crash = at + int(y * (top - at + 1))
        import random
        files = cur_disk.crash_state(min(crash, top), None, model, random.Random(int(y * 1e4)))
        need(n in files, 'checkpoint lost', 'crash %d (%s) after checkpoint %s was complete: it is gone, files %s' % (ci, model, n, sorted(files)))
        i, k = sched[n]
        d2 = disk.SimDisk(ctx.scratch())
        for f in files:
            d2.seed_file(f, files[f])
        np.random.seed((case['npseed'] + 1 + ci) % (1 << 32))
        with d2:
            try:
                e2 = L.en.Container().load(n[:-len('.pickle')])
            except Exception as e:
                need(False, 'checkpoint lost', 'crash %d (%s) after checkpoint %s was complete: it does not load: %r' % (ci, model, n, e))
            need(e2.iteration == k, 'step count', 'checkpoint %s holds step count %d, %d expected' % (n, e2.iteration, k))
            left = calls[i]['n'] - (k - starts[i])
            rest = [dict(calls[i], n=left)] + calls[i + 1:]
            if left == 0:
                rest = rest[1:]
            perform(e2, sp, rest)
            got = summary(e2)
        what = 'restart %d from %s (%d of %d steps in call %d left)' % (ci, n, left, calls[i]['n'], i)
        if clear:
            same(got, final, tol, what, 'resumed run')
        else:
            same(dict(got, v=final['v'], tw=0), dict(final, tw=0), tol, what, 'resumed run')
            ctx.count('unclear cut')
        v2 = versions(d2, list(sched))
        v2 = [v for v in v2 if sched[v[1]][1] > k]
        last = {v[1]: v for v in v2}
        for m_ in sched:
            if sched[m_][1] <= k or sched[m_][0] == i and sched[m_][1] <= k:
                continue
            need(m_ in last, 'later checkpoint', '%s: checkpoint %s is not written' % (what, m_))
            if clear:
                same(summary(pickle.loads(last[m_][2])), summary(pickle.loads(base[m_])), tol, '%s: checkpoint %s' % (what, m_), 'later checkpoint')
        compared += 1
        ctx.fault('crash:' + model)
        ctx.count('restart')
        ctx.state(calls[i]['m'], calls[i]['cp'], calls[i]['keep'], k, tuple(got['D']))
        ctx.log(n, k, crash, tuple(got['D']), '%.7g' % got['tw'])
        cur_vs, cur_disk, done_it = v2, d2, k
        # positions of later checkpoints are positions in the journal of the restarted run
    ctx.simtime += sum(abs(evo.dt_of(c['dt'])) * c['n'] for c in calls)
    ctx.nontrivial = compared > 0


def check_states(L, sp, ham, v0, calls, sched, seen, tol, ctx):
    """every checkpoint holds the state after the number of steps it says"""
    if all(c['m'] == 'tebd' for c in calls):
        ok, msg, clear = False, '', True
        for rev in (True, False):
            r = evo.TEBDModel(ham, v0, rev)
            it, t, good = 0, 0.0, True
            for c in calls:
                st = r.call(evo.dt_of(c['dt']), c['n'], c['D'], c['th'], c['cp'], it)
                if not r.clear:
                    clear = False
                    break
                for k, v, tw in st:
                    o = pickle.loads(seen[evo.cpfile('run', 'tebd', k)][1])
                    w = dense.vec(o.mps)
                    tk = t + abs(evo.dt_of(c['dt']).imag) * (k + 1 - it)
                    need(o.iteration == k + 1, 'step count', 'checkpoint %d holds step count %s' % (k, o.iteration))
                    need(abs(o.time - tk) < 1e-10, 'time', 'checkpoint %d holds time %.10g, %.10g expected' % (k, o.time, tk))
                    if not dense.close(w, v, 1e-6) or abs(o.truncatedWeight - tw) > 1e-8:
                        good = False
                        msg = 'checkpoint %d: state deviates from the evolution by %d steps: %s; weight %.9g, expected %.9g' % (
                            k, k + 1, dense.dev(w, v), o.truncatedWeight, tw)
                it += c['n']
                t += abs(evo.dt_of(c['dt']).imag) * c['n']
            ok = ok or good
        if clear:
            need(ok, 'checkpoint contents', msg)
            ctx.count('checkpoint contents compared', len(sched))
            return 'clear'
        return 'unclear'
    if any(c['D'] is not None or c['th'] > 1e-12 for c in calls) and any(c['m'] == 'tebd' for c in calls):
        return 'unclear'
    # straight run of as many steps without checkpoints
    e2, _, _ = evo.build(L, sp, 'straight')
    it = 0
    for i, c in enumerate(calls):
        cps = [k for n, (j, k) in sched.items() if j == i]
        done = 0
        start = copy.deepcopy(e2)
        for k in cps:
            e3 = copy.deepcopy(start)
            evo.steps(e3, sp, evo.dt_of(c['dt']), k - it, None, 1e-14, None, False, 0, c['m'])
            o = pickle.loads(seen[evo.cpfile('run', c['m'], k - 1)][1])
            v, w = dense.vec(e3.mps), dense.vec(o.mps)
            need(o.iteration == k, 'step count', 'checkpoint %d holds step count %s' % (k - 1, o.iteration))
            need(abs(o.time - e3.time) < 1e-10, 'time', 'checkpoint %d holds time %.10g, %.10g expected' % (k - 1, o.time, e3.time))
            need(dense.fidelity_dev(v, w) < tol * 10, 'checkpoint contents', 'checkpoint %d: state deviates from the evolution by %d steps: %.3g' % (k - 1, k, dense.fidelity_dev(v, w)))
            ctx.count('checkpoint contents compared')
        evo.steps(e2, sp, evo.dt_of(c['dt']), c['n'], None, 1e-14, None, False, 0, c['m'])
        it += c['n']
    return 'clear'


def simplify(case):
    for c in evo_simplify(case):
        yield c
    for i, s in enumerate(case['calls']):
        for key, val in (('n', s['n'] - 1), ('cp', 1), ('verbose', 0), ('look', None), ('D', None), ('th', 1e-14)):
            if key == 'n' and not 0 < val < s['n']:
                continue
            if s[key] != val:
                c = copy.deepcopy(case)
                c['calls'][i][key] = val
                yield c
