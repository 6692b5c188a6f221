"""C10: time evolution follows the Schroedinger equation and its conservation laws."""
import copy
import numpy as np
from .. import boot, dense, gen, hist, evo, disk, frame
from ..hist import need
from .c03 import evo_simplify

PROP = 'C10'
LEVEL = 'exploration'
COUNTS = {'quick': 700, 'thorough': 26000}
LISTS = ['segs', 'faults']
MINLEN = {'segs': 1}
RULE = ('a case is a chain, a Hamiltonian with varying couplings, an initial state and a seeded sequence of evolution segments (method, integrator, real or '
        'imaginary time step, steps, bond limit, threshold) with occasional decomposition failures; non-trivial if at least one segment was '
        'compared with the reference evolution')
REAL = ['lib.mpslib.engines.TimeEvolutionEngine', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.mpslib.Hamiltonians', 'lib.Lanczos', 'lib.mpslib.sexpmv',
        'numpy/scipy between injected failures']
STUBS = ['np.linalg.svd raises LinAlgError at the planned calls', 'stdout']
STATE_MEASURE = 'distinct (method, integrator, real/imaginary, bond dimension profile)'
TIMEUNIT = 'simulated time (units of 1/J)'
# error of one step at the tolerances used, times a safety factor
ERR = {'LAN': 2e-7, 'SEXPMV': 3e-7, 'RK45': 2e-7, 'RK23': 3e-4, 'BDF': 1e-3, 'Radau': 1e-5, 'LSODA': 1e-6}


def make(rng, tier):
    big = tier == 'thorough'
    if rng.random() < 0.08:
        return make_frame(rng)
    mode = rng.choice(['tebd', 'tebd', 'tebd', 'full', 'full', 'low', 'mixed'])
    if mode == 'tebd':
        sp = evo.spec(rng, 2, 8 if big else 7, 6, 'tebd', maxdim=300 if big else 150)
    else:
        sp = evo.spec(rng, 2, 6 if big else 5, 4, 'tdvp', maxdim=120 if big else 50)
    sp['krylov'] = rng.choice([14, 20])
    if rng.random() < 0.15:
        sp['ham']['scale'] = rng.choice([0.1, 0.03, 0.01, 0.003])       # energies far below one
    if rng.random() < 0.3:
        sp['realtime'] = False          # keep a real state real
    if mode in ('full', 'mixed'):
        sp['state']['D'] = 64
        sp['state']['kind'] = rng.choice(['list', 'list', 'random', 'deficient'])
    if mode == 'low':
        sp['state']['kind'] = rng.choice(['list', 'list', 'product', 'random'])
        sp['state']['D'] = rng.randint(1, 3)
    segs = []
    for _ in range(rng.randint(1, 5 if mode == 'tebd' else 3)):
        m = 'tebd' if mode == 'tebd' else ('tdvp' if mode != 'mixed' else rng.choice(['tebd', 'tdvp']))
        imag = mode != 'low' and rng.random() < 0.3
        dt = rng.choice(evo.DT_IMAG if imag else evo.DT_REAL)
        segs.append({'m': m, 'dt': evo.dt_json(dt), 'n': rng.randint(1, 5 if m == 'tebd' else 3),
                     'D': rng.choice([None, 2, 3, 4, 6, 8]) if mode == 'tebd' else None,
                     'th': rng.choice([1e-14, 1e-14, 1e-8, 1e-4, 1e-2]) if mode == 'tebd' else 1e-14,
                     'solver': rng.choice(['LAN', 'LAN', 'LAN', 'SEXPMV', 'SEXPMV', 'RK45', 'RK45', 'RK23', 'BDF', 'Radau', 'LSODA'])})
    if sp.get('realtime') is False and not sp['ham'].get('cplx') and mode == 'full' and rng.random() < 0.7:
        # all real: the integrators without complex support
        sp['state']['cplx'] = False
        for s in segs[:2]:
            s['dt'] = evo.dt_json(rng.choice(evo.DT_IMAG))
            s['solver'] = rng.choice(['Radau', 'LSODA'])
    return {'spec': sp, 'mode': mode, 'segs': segs, 'npseed': rng.randrange(1 << 30),
            'faults': hist.svd_faults(rng, rng.choice([0, 0, 0.05, 0.2]))}


def make_frame(rng):
    segs = []
    for _ in range(rng.randint(1, 4)):
        segs.append({'dt': evo.dt_json(rng.choice(evo.DT_REAL + evo.DT_REAL + evo.DT_IMAG)), 'n': rng.randint(1, 3), 'solver': rng.choice(['LAN', 'LAN', 'SEXPMV', 'RK45']), 'x': round(rng.random(), 4),
                     'look': rng.choice([None, 'position', 'mpsposition', 'saveload', 'schmidt', 'cp'])})
    sp = frame.spec(rng, 100)
    sp['cplx'] = True
    return {'kind': 'frame', 'frame': sp, 'segs': segs, 'npseed': rng.randrange(1 << 30)}


def run_frame(case, ctx):
    """TDVP of a stretch of a chain with environments given by the user"""
    L = boot.lib()
    sp = case['frame']
    mps, mpo, lb, rb, ham = frame.build(L, sp)
    isfull = sp['D'] == 64
    normH = max(1.0, float(np.linalg.norm(ham.M, 2)))
    keep = [np.copy(x) for x in (lb, rb)]
    with disk.SimDisk(ctx.scratch()):
        eng = L.en.TimeEvolutionEngine.TDVP(mps, mpo, 'run', lb, rb)
        N = len(eng.mps)
        v = frame.vec(eng.mps)
        for k, s in enumerate(case['segs']):
            what = 'segment %d %s (given environments)' % (k, s)
            if s['look'] == 'position':
                eng.update()
                eng.position(hist.bond_of(s['x'], N))
            elif s['look'] == 'mpsposition':
                eng.mps.position(hist.bond_of(s['x'], N))
            elif s['look'] == 'schmidt':
                eng.mps.getSchmidt(hist.bond_of(s['x'], N))
            elif s['look'] == 'saveload':
                eng.save('engine')
                eng = L.en.Container().load('engine')
            dt = evo.dt_of(s['dt'])
            e0 = ham.energy(v).real
            D0 = list(eng.mps.D)
            evo.steps(eng, {'method': 'tdvp', 'krylov': 60, 'solver': s['solver']}, dt, s['n'], cp=1 if s['look'] == 'cp' else None, method='tdvp')
            w = frame.vec(eng.mps)
            tol = ERR[s['solver']] * s['n'] * (1 + normH / 4)
            need(abs(dense.norm(w) - 1) < 1e-7, 'norm', '%s: norm %.10g' % (what, dense.norm(w)))
            if isfull:
                r = evo.exact(ham, v, dt, s['n'])
                need(dense.close(w, r, tol), 'TDVP', '%s: state deviates from the exact evolution by %s' % (what, dense.dev(w, r)))
                ctx.count('compared: tdvp, given environments')
            if s['dt'][0] == 0:
                e1 = ham.energy(w).real
                need(abs(e1 - e0) < tol * normH, 'energy', '%s: energy %.10g before, %.10g after' % (what, e0, e1))
                ctx.count('compared: energy')
            need(list(eng.mps.D) == D0, 'bond limit', '%s: bond dimensions %s, before %s' % (what, eng.mps.D, D0))
            v = w / dense.norm(w)
            ctx.state('frame', s['solver'], s['dt'][0] == 0, tuple(eng.mps.D))
            ctx.log('frame', tuple(eng.mps.D), '%.6f' % ham.energy(v).real)
            ctx.simtime += abs(dt) * s['n']
        need(np.array_equal(lb, keep[0]) and np.array_equal(rb, keep[1]), 'environments changed', 'the environments given by the user were modified')
    ctx.nontrivial = any(k.startswith('compared') for k in ctx.counters)


def full(mps):
    d = mps.d
    D = mps.D
    for n in range(1, len(d)):
        if D[n] < min(int(np.prod(d[:n])), int(np.prod(d[n:]))):
            return False
    return True


def charges(sp, d):
    """operators that commute with the Hamiltonian: list of (name, diagonal over the basis)"""
    N = len(d)
    if sp['ham']['kind'] == 'xxz':
        q = np.zeros([2] * N)
        for n in range(N):
            sh = [1] * N
            sh[n] = 2
            q = q + np.array([-0.5, 0.5]).reshape(sh)
        return 'magnetisation', q
    if sp['ham']['kind'] == 'tfi':
        q = np.ones([2] * N)
        for n in range(N):
            sh = [1] * N
            sh[n] = 2
            q = q * np.array([-1.0, 1.0]).reshape(sh)
        return 'parity', q
    return None, None


def run(case, ctx):
    if case.get('kind') == 'frame':
        return run_frame(case, ctx)
    L = boot.lib()
    sp = case['spec']
    hist.arm_svd(case['faults'])
    with disk.SimDisk(ctx.scratch()):
        eng, mps0, ham = evo.build(L, sp)
        v = dense.vec(eng.mps)
        cname, q = charges(sp, v.shape)
        normH = max(1.0, float(np.linalg.norm(ham.M, 2)))
        for k, s in enumerate(case['segs']):
            dt = evo.dt_of(s['dt'])
            if s['m'] == 'tdvp' and s['solver'] in ('RK45', 'RK23', 'BDF', 'Radau', 'LSODA') and len(sp['state']['d']) > 5:
                s = dict(s, solver='LAN')
            if s['m'] == 'tdvp' and s['solver'] in ('LSODA', 'Radau') and (s['dt'][1] != 0 or any(np.iscomplexobj(t) for t in list(eng.mps._tensors) + [eng.mps._mat] + list(ham.mpo))):
                s = dict(s, solver='RK45')      # for real problems only (scipy)
            what = 'segment %d %s' % (k, s)
            q0 = np.vdot(v, q * v).real if q is not None else None
            definite = q is not None and np.vdot(v, q * q * v).real - q0 ** 2 < 1e-12
            e0 = ham.energy(v).real
            D0 = list(eng.mps.D)
            isfull = full(eng.mps)
            clear = True
            spx = dict(sp, solver=s['solver'])
            evo.steps(eng, spx, dt, s['n'], s['D'], s['th'], None, False, 0, s['m'])
            w = dense.vec(eng.mps)
            need(abs(dense.norm(w) - 1) < 1e-7, 'norm', '%s: norm %.10g' % (what, dense.norm(w)))
            if s['m'] == 'tebd':
                refs = [evo.TEBDModel(ham, v, r) for r in (True, False)]
                for r in refs:
                    r.call(dt, s['n'], s['D'], s['th'])
                clear = all(r.clear for r in refs)
                if clear:
                    need(any(dense.close(w, r.v, 1e-7) for r in refs), 'TEBD', '%s: state deviates from the Trotter evolution: %s' % (
                        what, [dense.dev(w, r.v) for r in refs]))
                    ctx.count('compared: tebd')
                else:
                    ctx.count('unclear cut')
                need(s['D'] is None or max(eng.mps.D) <= max(s['D'], 1) or k == 0 and max(D0) > s['D'] or max(D0) > s['D'], 'bond limit',
                     '%s: bond dimensions %s' % (what, eng.mps.D))
            else:
                tol = ERR[s['solver']] * s['n'] * (1 + normH / 4)
                if isfull:
                    r = evo.exact(ham, v, dt, s['n'])
                    need(dense.close(w, r, tol), 'TDVP', '%s: state deviates from the exact evolution by %s' % (what, dense.dev(w, r)))
                    ctx.count('compared: tdvp ' + s['solver'])
                if s['dt'][0] == 0:
                    e1 = ham.energy(w).real
                    need(abs(e1 - e0) < tol * normH, 'energy', '%s: energy %.10g before, %.10g after' % (what, e0, e1))
                    ctx.count('compared: energy')
                need(all(a <= b for a, b in zip(eng.mps.D, D0)), 'bond limit', '%s: bond dimensions %s, before %s' % (what, eng.mps.D, D0))
            if definite and clear and s['m'] == 'tebd':
                q1 = np.vdot(w, q * w).real
                need(abs(q1 - q0) < 1e-6, cname, '%s: %.9g before, %.9g after' % (what, q0, q1))
                ctx.count('compared: ' + cname)
            v = w / dense.norm(w)
            ctx.state(s['m'], s['solver'] if s['m'] == 'tdvp' else '', s['dt'][0] == 0, tuple(eng.mps.D))
            ctx.log(s['m'], tuple(eng.mps.D), '%.6f' % ham.energy(v).real)
            ctx.simtime += abs(dt) * s['n']
        hist.note_faults(ctx)
        ctx.nontrivial = any(k.startswith('compared') for k in ctx.counters)


def simplify(case):
    if case.get('kind') == 'frame':
        for i, s in enumerate(case['segs']):
            for key, val in (('n', 1), ('look', None), ('solver', 'LAN')):
                if s[key] != val:
                    c = copy.deepcopy(case)
                    c['segs'][i][key] = val
                    yield c
        return
    for c in evo_simplify(case):
        yield c
    for i, s in enumerate(case['segs']):
        for key, val in (('n', 1), ('n', s['n'] - 1), ('D', None), ('th', 1e-14), ('solver', 'LAN')):
            if key == 'n' and not 0 < val < s['n']:
                continue
            if s[key] != val:
                c = copy.deepcopy(case)
                c['segs'][i][key] = val
                yield c
