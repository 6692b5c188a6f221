"""C03: time, step count and truncated weight are exact, however an evolution is divided into calls."""
import copy, os
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need

PROP = 'C03'
LEVEL = 'exploration'
COUNTS = {'quick': 400, 'thorough': 24000}
LISTS = ['segs']
MINLEN = {'segs': 1}
RULE = ('a case is a chain, a Hamiltonian and a seeded sequence of evolution calls (method, time step, number of steps including 0, bond limit, '
        'threshold, checkpoint interval, verbosity, method switches, resets, observations in between, other simulations alive); '
        'non-trivial if at least two calls performed steps')
REAL = ['lib.mpslib.engines.TimeEvolutionEngine', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.Lanczos', 'numpy/scipy',
        'pickling of checkpoints']
STUBS = ['files (simulated disk)', 'stdout', 'clock']
STATE_MEASURE = 'distinct (method, step number, bond dimension profile, reset count)'
TIMEUNIT = 'simulated time (units of 1/J)'


def make(rng, tier):
    big = tier == 'thorough'
    sp = evo.spec(rng, 2, 7 if big else 6, 4, maxdim=250 if big else 100)
    only = rng.choice(['tebd', 'tebd', 'tdvp', None])
    dt0 = rng.choice(evo.DT_REAL)
    trunc = rng.random() < 0.5
    segs = []
    for _ in range(rng.randint(2, 6)):
        dt = dt0 if rng.random() < 0.7 else rng.choice(evo.DT_REAL + evo.DT_IMAG)
        m = only or rng.choice(['tebd', 'tebd', 'tdvp'])
        segs.append({'m': m, 'dt': evo.dt_json(dt), 'n': rng.choice([0, 1, 1, 2, 2, 3, 4, 6] if m == 'tebd' else [0, 1, 1, 2, 3]),
                     'D': rng.choice([None, None, 2, 3, 4, 6]) if trunc else None, 'th': rng.choice([1e-14, 1e-6, 1e-3, 3e-2]) if trunc else 1e-14,
                     'cp': rng.choice([None, None, 1, 2, 3]), 'keep': rng.random() < 0.5, 'verbose': rng.choice([0, 0, 1, 2]),
                     'reset': rng.random() < 0.12, 'look': rng.choice([None, None, 'measure', 'position', 'schmidt'])})
    if rng.random() < 0.12:
        # small chains, many steps
        evo.shorten(rng, sp)
        for s in segs:
            s['n'] = rng.choice([1, 9, 12, 25])
            s['cp'] = rng.choice([None, 1, 4, 10])
    return {'spec': sp, 'segs': segs, 'npseed': rng.randrange(1 << 30)}


def run(case, ctx):
    L = boot.lib()
    sp = case['spec']
    with disk.SimDisk(ctx.scratch()):
        eng, mps0, ham = evo.build(L, sp)
        v0 = dense.vec(eng.mps)
        refs = [evo.TEBDModel(ham, v0, True), evo.TEBDModel(ham, v0, False)]
        N = len(eng.mps)
        t, it, tw = 0.0, 0, 0.0
        need(eng.time == 0 and eng.iteration == 0 and eng.truncatedWeight == 0, 'counters', 'new simulation: time %s, step %s, weight %s' % (
            eng.time, eng.iteration, eng.truncatedWeight))
        merged = []
        total = 0.0
        performed, exact_tw = 0, True
        for k, s in enumerate(case['segs']):
            dt = evo.dt_of(s['dt'])
            what = 'call %d %s' % (k, s)
            if s['reset']:
                eng.reset()
                t, it, tw = 0.0, 0, 0.0
                for r in refs:
                    r.tw = 0.0
                exact_tw = True
                merged.append('reset')
            before = dense.vec(eng.mps)
            files = set(os.listdir('.'))
            out = evo.steps(eng, sp, dt, s['n'], s['D'], s['th'], s['cp'], s['keep'], s['verbose'], s['m'])
            v = dense.vec(eng.mps)
            if s['n'] == 0:
                need(dense.close(v, before, 1e-10), 'zero steps', '%s changed the state by %s' % (what, dense.dev(v, before)))
                need(set(os.listdir('.')) == files, 'zero steps', '%s wrote files' % what)
            real = s['dt'][0] == 0
            if real:
                t += abs(dt) * s['n']
            else:
                t = eng.time
            if s['m'] == 'tebd':
                for r in refs:
                    r.call(dt, s['n'], s['D'], s['th'], s['cp'], it)
                if s['n'] > 0 and (s['D'] is not None or s['th'] > 1e-12):
                    total += max(r.tw for r in refs) - tw
            it += s['n']
            need(eng.iteration == it, 'step count', '%s: %s steps reported, %d performed' % (what, eng.iteration, it))
            need(abs(eng.time - t) < 1e-12 + 1e-12 * t, 'time', '%s: time %.15g reported, %.15g simulated' % (what, eng.time, t))
            if s['m'] == 'tebd' and s['n'] > 0 and not any(dense.fidelity_dev(v, r.v) < 1e-5 or not r.clear for r in refs):
                raise_state(what, v, refs)
            if all(r.clear for r in refs):
                if exact_tw:
                    need(any(abs(eng.truncatedWeight - r.tw) < 1e-9 for r in refs), 'truncated weight', '%s: truncated weight %.12g reported, %s discarded' % (
                        what, eng.truncatedWeight, [r.tw for r in refs]))
                    best = min(refs, key=lambda r: abs(eng.truncatedWeight - r.tw))
                    if abs(refs[0].tw - refs[1].tw) > 1e-9:
                        for r in refs:
                            r.v, r.tw = best.v, best.tw
            else:
                ctx.count('unclear cut')
                exact_tw = False
                need(np.isfinite(eng.truncatedWeight) and eng.truncatedWeight >= -1e-10, 'truncated weight', '%s: %s' % (what, eng.truncatedWeight))
                for r in refs:
                    r.clear = True
            need(abs(dense.norm(v) - 1) < 1e-6, 'norm', '%s: norm of the state is %.9g' % (what, dense.norm(v)))
            if s['m'] == 'tebd' and out is not None:
                need(abs(out[0] - eng.truncatedWeight) < 1e-12 and abs(out[1] - eng.time) < 1e-12, 'return values', '%s: returned %s, properties say %s' % (
                    what, out, (eng.truncatedWeight, eng.time)))
            elif s['m'] == 'tdvp' and out is not None and np.isscalar(out):
                need(abs(out - eng.time) < 1e-12, 'return values', '%s: returned %s, time is %s' % (what, out, eng.time))
            for r in refs:
                r.v = v / dense.norm(v)
            if s['n']:
                performed += 1
                merged.append((s['m'], tuple(s['dt']), s['n']))
            look(eng, s['look'], N, ctx)
            ctx.state(s['m'], it, tuple(eng.mps.D), s['reset'])
            ctx.log(s['m'], it, round(eng.time, 9), tuple(eng.mps.D), '%.8g' % eng.truncatedWeight)
            ctx.count('call:' + s['m'])
            ctx.simtime += abs(dt) * s['n']
            tw = eng.truncatedWeight
        if total < 1e-13:
            # nothing was truncated: the same evolution in as few calls as possible
            e2, _, _ = evo.build(L, sp, 'twin')
            i = 0
            while i < len(merged):
                if merged[i] == 'reset':
                    e2.reset()
                    i += 1
                    continue
                m, dt, n = merged[i]
                j = i + 1
                while j < len(merged) and merged[j] != 'reset' and merged[j][:2] == (m, dt):
                    n += merged[j][2]
                    j += 1
                evo.steps(e2, sp, evo.dt_of(dt), n, None, 1e-14, None, False, 0, m)
                i = j
            w = dense.vec(e2.mps)
            v = dense.vec(eng.mps)
            tol = 1e-6 if all(m == 'reset' or m[0] == 'tebd' for m in merged) else evo.TOL[sp['solver']]
            need(dense.fidelity_dev(v, w) < 10 * tol, 'divided evolution', 'the state differs from the one evolved in %d calls by %.3g' % (
                len(merged), dense.fidelity_dev(v, w)))
            need(e2.iteration == eng.iteration and abs(e2.time - eng.time) < 1e-10 and abs(e2.truncatedWeight - eng.truncatedWeight) < 1e-9, 'divided evolution',
                 'counters %s, %s in undivided evolution' % ((eng.iteration, eng.time, eng.truncatedWeight), (e2.iteration, e2.time, e2.truncatedWeight)))
            ctx.count('twin compared')
        ctx.nontrivial = performed >= 2


def raise_state(what, v, refs):
    need(False, 'state', '%s: state deviates from the Trotter evolution by %s' % (what, [dense.fidelity_dev(v, r.v) for r in refs]))


def look(eng, how, N, ctx):
    if how == 'measure':
        eng.measureLocal([np.diag(np.arange(1.0, t.shape[2] + 1)) for t in eng.mps.tensors])
    elif how == 'position':
        eng.mps.position(N // 2)
    elif how == 'schmidt':
        eng.mps.getSchmidt(N // 2)
    if how:
        ctx.count('observation')


def simplify(case):
    for c in evo_simplify(case):
        yield c
    for i, s in enumerate(case['segs']):
        for key, val in (('n', 1), ('n', s['n'] - 1), ('D', None), ('th', 1e-14), ('cp', None), ('verbose', 0), ('reset', False), ('look', None)):
            if key == 'n' and not 0 < val < s['n']:
                continue
            if s[key] != val:
                c = copy.deepcopy(case)
                c['segs'][i][key] = val
                yield c


def evo_simplify(case):
    """smaller chain, simpler state"""
    sp = case['spec']
    d = sp['state']['d']
    if len(d) > 2:
        for n in sorted(set([max(2, len(d) // 2), len(d) - 1])):
            c = copy.deepcopy(case)
            c['spec']['state']['d'] = d[:n]
            c['spec']['ham']['N'] = n
            if 'd' in c['spec']['ham']:
                c['spec']['ham']['d'] = d[:n]
            yield c
    if sp['state']['kind'] != 'product':
        c = copy.deepcopy(case)
        c['spec']['state']['kind'] = 'product'
        yield c
    if sp['state']['D'] > 1:
        c = copy.deepcopy(case)
        c['spec']['state']['D'] = sp['state']['D'] // 2
        yield c
