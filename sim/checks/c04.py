"""C04: checkpoint files appear on schedule, only own old ones are removed, nothing else is touched."""
import copy, os, pickle
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from .c03 import evo_simplify

PROP = 'C04'
LEVEL = 'exploration'
COUNTS = {'quick': 900, 'thorough': 30000}
LISTS = ['calls', 'foreign', 'faults']
MINLEN = {'calls': 1}
RULE = ('a case is a directory with foreign files (also with checkpoint-like names), one or two simulations and a seeded sequence of calls (TEBD, TDVP, DMRG) '
        'with interval, retention and verbosity, with occasional disk errors followed by going on; the directory is compared with a model after every call and the journal '
        'of disk operations is scanned for any operation on a foreign file; non-trivial if at least one checkpoint was written')
REAL = ['lib.mpslib.engines.TimeEvolutionEngine', 'lib.mpslib.engines.DMRGengine', 'lib.utils.fileio', 'pickle', 'lib.mpslib.mps.MPS']
STUBS = ['files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (kind of call, interval, retention, step counter, checkpoint names present)'
TIMEUNIT = 'simulated time (units of 1/J)'


def make(rng, tier):
    sp = evo.spec(rng, 2, 4, 2, maxdim=20)
    sp['solver'] = 'LAN'
    sp['krylov'] = 6
    names = rng.choice([['run'], ['run'], ['run', 'run2'], ['run', 'other'], ['sub/run'], ['run', 'run_tebd'], ['r.un']])
    calls = []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(['tebd', 'tebd', 'tebd', 'tdvp', 'tdvp', 'dmrg', 'dmrg2'])
        calls.append({'m': kind, 'who': rng.randrange(len(names)), 'n': rng.choice([0, 1, 2, 3, 4, 6, 9, 13]) if kind == 'tebd' else rng.choice([0, 1, 2, 3, 5]),
                      'cp': rng.choice([None, 1, 1, 2, 2, 3, 4, 5]), 'keep': rng.random() < 0.4, 'verbose': rng.choice([0, 0, 1, 2]), 'reset': rng.random() < 0.15})
    foreign = []
    for _ in range(rng.randint(0, 6)):
        b = rng.choice(names + ['run', 'test'])
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 100])
        foreign.append(rng.choice(['%s_tebd_cp%d.pickle', '%s_tdvp_cp%d.pickle', '%s_tebd_cp%d', '%s_tebd_cp%d.pickle.bak', '%s_tebd_cp%d.npy', '%s_dmrg_cp%d.pickle',
                                   '%s_cp%d.pickle', '%s%d.pickle', '%s_tebd_cp0%d.pickle']) % (b, k))
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            faults.append({'kind': rng.choice(['any', 'any', 'write', 'fsync', 'rename', 'open', 'remove']), 'n': rng.randrange(60), 'len': rng.choice([1, 1, 2, 5]),
                           'err': rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT']), 'part': rng.choice([None, 0.5])})
    return {'spec': sp, 'names': names, 'calls': calls, 'foreign': sorted(set(foreign)), 'faults': faults, 'npseed': rng.randrange(1 << 30)}


def schedule(c, it):
    if not c['cp']:
        return []
    return [k for k in range(it, it + c['n']) if k > 0 and k % c['cp'] == 0]


def touched(journal, root, a, b, names0):
    """paths whose directory entry or contents an operation of journal[a:b] concerns; names0: inode -> path at a"""
    names = dict(names0)
    out = []
    for op in journal[a:b]:
        k = op[0]
        if k in ('create', 'adopt'):
            names[op[2]] = op[1]
            out.append(op[1])
        elif k in ('trunc', 'write'):
            out.append(names.get(op[1]))
        elif k == 'rename':
            for i, p in list(names.items()):
                if p == op[2]:
                    del names[i]
            for i, p in list(names.items()):
                if p == op[1]:
                    names[i] = op[2]
            out += [op[1], op[2]]
        elif k == 'link':
            out.append(op[2])
        elif k == 'remove':
            out.append(op[1])
    return set(os.path.relpath(p, root) for p in out if p)


def run(case, ctx):
    L = boot.lib()
    sp = case['spec']
    dt = -0.05j
    # names written according to the schedule; foreign files avoid those
    its = [0] * len(case['names'])
    written = set()
    for c in case['calls']:
        f = case['names'][c['who']]
        if c['m'] in ('dmrg', 'dmrg2'):
            written.add(f + '_dmrg_cp.pickle')
            continue
        if c['reset']:
            its[c['who']] = 0
        for k in schedule(c, its[c['who']]):
            written.add(evo.cpfile(f, c['m'], k))
        if case['faults']:
            # a call may end early: any multiple may be written
            for k in range(0, 60):
                written.add(evo.cpfile(f, c['m'], k))
        its[c['who']] += c['n']
    foreign = [f for f in case['foreign'] if f not in written]
    d = disk.SimDisk(ctx.scratch(), case['faults'])
    for sub in sorted(set(os.path.dirname(f) for f in case['foreign'] + case['names'])):
        if sub:
            os.makedirs(os.path.join(d.root, sub), exist_ok=True)
    for f in foreign:
        d.seed_file(f, b'foreign ' + f.encode())
    with d:
        engs, its = [], []
        for f in case['names']:
            eng, mps, ham = evo.build(L, sp, f)
            dm = L.en.DMRGengine(mps.copy(), ham.mpo, f)
            engs.append((eng, dm))
            its.append(0)
        need(len(d.journal) == 0, 'unexpected file', 'building a simulation touches files: %s' % (d.journal[:2],))
        have = {}
        nwritten = 0
        for k, c in enumerate(case['calls']):
            who = c['who']
            f = case['names'][who]
            eng, dm = engs[who]
            what = 'call %d %s' % (k, c)
            a = len(d.journal)
            names0 = {i: p for p, i in d.names.items()}
            nf = len(d.fired)
            if c['reset'] and c['m'] in ('tebd', 'tdvp'):
                eng.reset()
                its[who] = 0
            failed = False
            try:
                if c['m'] in ('tebd', 'tdvp'):
                    evo.steps(eng, sp, dt, c['n'], 4, 1e-12, c['cp'], c['keep'], c['verbose'], c['m'])
                else:
                    if c['n'] == 0 or len(dm.mps) < 2 or c['m'] == 'dmrg2' and len(dm.mps) < 3:
                        continue
                    (dm.simulate if c['m'] == 'dmrg' else dm.simulateTwoSite)(Nmax=c['n'], Econv=0.0, tol=1E-8, ncv=10, cp=c['cp'], verbose=c['verbose'], solver='LAN')
            except OSError as e:
                if len(d.fired) == nf:
                    raise
                failed = True
                ctx.count('calls ended by a disk error')
            if not failed and len(d.fired) > nf and not d.fired[-1][0] in ('remove',):
                need(False, 'error swallowed', '%s: disk error %s did not reach the caller' % (what, d.fired[nf:]))
            files = d.listing()
            ontop = set(os.path.relpath(os.path.join(p, x), d.root) for p, _, xs in os.walk(d.root) for x in xs)
            need(ontop == set(files), 'unexpected file', '%s: files %s not accounted for' % (what, ontop ^ set(files)))
            # foreign files
            for x in foreign:
                need(files.get(x) == b'foreign ' + x.encode(), 'foreign file', '%s: foreign file %s was %s' % (what, x, 'removed' if x not in files else 'modified'))
            t = touched(d.journal, d.root, a, len(d.journal), names0)
            bad = t & set(foreign)
            need(not bad, 'foreign file', '%s: operations on foreign files %s' % (what, sorted(bad)))
            if not c['cp']:
                need(not t, 'unexpected file', '%s: no checkpoint interval, but files %s were touched' % (what, sorted(t)))
            if c['m'] in ('tebd', 'tdvp'):
                sched = schedule(c, its[who])
                if failed:
                    done = eng.iteration - its[who]
                    its[who] = eng.iteration
                    allowed = set(evo.cpfile(f, c['m'], x) for x in sched)
                    for x in list(files):
                        if x not in foreign and x not in have:
                            need(x in allowed or x in t and not x.endswith('.pickle'), 'unexpected file', '%s: file %s appeared' % (what, x))
                    have = {x: files[x] for x in files if x not in foreign}
                    continue
                its[who] += c['n']
                names = [evo.cpfile(f, c['m'], x) for x in sched]
                need(set(names) <= t, 'missing checkpoint', '%s: checkpoints %s were due, operations on %s' % (what, names, sorted(t)))
                exp = set(have)
                if c['keep']:
                    exp |= set(names)
                else:
                    exp = (exp - set(names[:-1])) | set(names[-1:])
                removed_ok = not any(x[0] == 'remove' for x in d.fired[nf:])
                left = t - set(names)
                extra = set(x for x in left if x in files) - set(have)
                need(not extra, 'unexpected file', '%s: left behind %s (due: %s)' % (what, sorted(extra), names))
                now = set(files) - set(foreign)
                if removed_ok:
                    need(now == exp, 'retention', '%s: checkpoints %s on disk, expected %s' % (what, sorted(now), sorted(exp)))
                else:
                    need(now >= exp, 'retention', '%s: checkpoints %s on disk, expected %s' % (what, sorted(now), sorted(exp)))
                for x, kk in zip(names, sched):
                    if x in files:
                        obj = pickle.loads(files[x])
                        need(obj.iteration == kk + 1, 'wrong contents', '%s: %s holds step count %s' % (what, x, obj.iteration))
                        nwritten += 1
                unchanged = set(have) - set(names) - set(t)
            else:
                name = f + '_dmrg_cp.pickle'
                due = c['cp'] is not None and c['n'] >= c['cp']
                if not failed:
                    need((name in t) == due, 'schedule', '%s: checkpoint %s %s' % (what, name, 'written' if name in t else 'not written'))
                    exp = set(have) | (set([name]) if due else set())
                    now = set(files) - set(foreign)
                    need(now == exp, 'retention', '%s: files %s, expected %s' % (what, sorted(now), sorted(exp)))
                    if due:
                        nwritten += 1
                unchanged = set(have) - set([name]) - set(t)
            for x in unchanged:
                need(files.get(x) == have[x], 'old checkpoint', '%s: %s changed' % (what, x))
            have = {x: files[x] for x in files if x not in foreign}
            ctx.state(c['m'], c['cp'], c['keep'], its[who], tuple(sorted(have)))
            ctx.log(c['m'], sorted(have), len(d.journal))
            ctx.simtime += abs(dt) * c['n']
            ctx.count('call:' + c['m'])
        for kind, err, _ in d.fired:
            ctx.fault('disk %s %s' % (kind, err))
        ctx.count('disk operations', len(d.journal))
        ctx.nontrivial = nwritten > 0


def simplify(case):
    for c in evo_simplify(case):
        yield c
    if len(case['names']) > 1:
        c = copy.deepcopy(case)
        c['names'] = c['names'][:1]
        for x in c['calls']:
            x['who'] = 0
        yield c
    for i, s in enumerate(case['calls']):
        for key, val in (('n', 1), ('n', s['n'] - 1), ('cp', None), ('cp', 1), ('verbose', 0), ('reset', False)):
            if key == 'n' and not 0 < val < s['n']:
                continue
            if s[key] != val:
                c = copy.deepcopy(case)
                c['calls'][i][key] = val
                yield c
