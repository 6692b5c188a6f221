"""C16: failures are reported, and leave a simulation that can go on."""
import copy, os, pickle
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from ..numseam import SEAM
from .c03 import evo_simplify
from . import c11, c15

PROP = 'C16'
LEVEL = 'exploration'
COUNTS = {'quick': 460, 'thorough': 24000}
LISTS = ['calls', 'faults', 'fails', 'parts']
MINLEN = {'calls': 1}
RULE = ('a case is either a sequence of checkpointed evolution calls with seeded disk errors (each failed call is continued for the steps that are left) or a DMRG history with seeded '
        'failures of the sparse eigensolver, the Lanczos diagonalisation or the decomposition followed by another run; non-trivial if at least one failure reached the caller and the run went on')
REAL = ['lib.mpslib.engines.TimeEvolutionEngine', 'lib.mpslib.engines.DMRGengine', 'lib.utils.fileio', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'pickle']
STUBS = ['files (simulated disk with errors)', 'eigsh/eigh/svd raise at the planned calls', 'stdout']
STATE_MEASURE = 'distinct (method, failing operation, error, step at failure, bond dimension profile)'
TIMEUNIT = 'simulated time (units of 1/J)'


def disk_fault(rng, n):
    kind = rng.choice(['any', 'any', 'any', 'write', 'fsync', 'rename', 'open', 'remove'])
    return {'kind': kind, 'n': rng.randrange(n if kind in ('any', 'write') else 6), 'len': rng.choice([1, 1, 1, 2, 4, 12]), 'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EROFS']),
            'part': rng.choice([None, None, 0.3, 0.9])}


def make(rng, tier):
    big = tier == 'thorough'
    if rng.random() < 0.05:
        # infinite-system optimisers whose checkpoints fail
        algo = rng.choice(['vumps', 'idmrg1', 'idmrg2', 'grad'])
        while True:
            o = c15.make(rng, tier)
            if 'Js' not in o and o['model'] == 'tfi' and o['algo'] == algo:
                break
        o.update(faults=[], twin=False)
        return {'kind': 'opt', 'opt': o, 'parts': [{'n': rng.choice([3, 4, 6, 9]), 'cp': rng.choice([1, 1, 2])} for _ in range(rng.randint(1, 3))], 'calls': [0], 'npseed': o['npseed'],
                'faults': [disk_fault(rng, 20) for _ in range(rng.randint(1, 3))]}
    if rng.random() < 0.3:
        d = gen.pick_dims(rng, 3, 6 if big else 5, 100 if big else 50, (2, 2, 2, 3))
        N = len(d)
        h = gen.ham_spec(rng, N, kinds=['generic'])
        h['d'] = d
        st = gen.state_spec(rng, d, 6)
        st['kind'] = rng.choice(['list', 'random'])
        st['D'] = rng.choice([2, 4, 64])
        return {'kind': 'dmrg', 'faults': [disk_fault(rng, 40) for _ in range(rng.choice([0, 1, 2]))], 'state': st, 'ham': h, 'npseed': rng.randrange(1 << 30), 'calls': [0],
                'fails': [{'two': rng.random() < 0.5, 'solver': rng.choice(['AR', 'AR', 'LAN', 'LOBPCG']), 'n': rng.choice([1, 2, 3]), 'x': round(rng.random(), 3),
                           'what': rng.choice(['solver', 'solver', 'svd']), 'err': rng.choice(['ArpackNoConvergence', 'ArpackError', 'LinAlgError', 'MemoryError'])}
                          for _ in range(rng.randint(1, 4))], 'final': rng.choice(['AR', 'LAN'])}
    sp = evo.spec(rng, 2, 6 if big else 5, 4, maxdim=100 if big else 60)
    sp['solver'] = rng.choice(['LAN', 'LAN', 'LAN', 'SEXPMV', 'RK45'])
    trunc = rng.random() < 0.5
    calls = []
    for _ in range(rng.randint(1, 3)):
        calls.append({'dt': evo.dt_json(rng.choice(evo.DT_REAL + [-0.05])), 'n': rng.randint(1, 8) if sp['method'] == 'tebd' else rng.randint(1, 4), 'cp': rng.choice([1, 1, 2, 3]),
                      'keep': rng.random() < 0.5, 'D': rng.choice([2, 3, 4, None]) if trunc else None, 'th': rng.choice([1e-14, 1e-6, 1e-3]) if trunc else 1e-14})
    long = rng.random() < 0.1
    if long:
        evo.shorten(rng, sp)
        for c in calls:
            c['n'] = rng.choice([10, 12, 21])
            c['cp'] = rng.choice([1, 2, 3, 5])
    faults = []
    for _ in range(rng.randint(1, 3)):
        faults.append(disk_fault(rng, 40))
    return {'kind': 'evo', 'spec': sp, 'calls': calls, 'faults': faults, 'fails': [], 'npseed': rng.randrange(1 << 30)}


def run(case, ctx):
    {'evo': run_evo, 'dmrg': run_dmrg, 'opt': run_opt}[case['kind']](case, ctx)


def run_evo(case, ctx):
    L = boot.lib()
    sp = case['spec']
    m = sp['method']
    tol = 1e-7 if m == 'tebd' else 3 * evo.TOL[sp['solver']]
    # undisturbed
    with disk.SimDisk(ctx.scratch()):
        ref, _, ham = evo.build(L, sp)
        v0 = dense.vec(ref.mps)
        model = evo.TEBDModel(ham, v0)
        good = []
        for c in case['calls']:
            states = {}
            if m == 'tebd':
                it0 = ref.iteration
                # states after each step
                evo.steps(ref, sp, evo.dt_of(c['dt']), c['n'], c['D'], c['th'], c['cp'], c['keep'], 0)
                for k, v, tw in model.call(evo.dt_of(c['dt']), c['n'], c['D'], c['th'], c['cp'], it0):
                    states[k + 1] = (v, tw)
            else:
                # step by step: every step of TDVP starts and ends in the same gauge
                cur = copy.deepcopy(ref)
                for k in range(c['n']):
                    evo.steps(cur, sp, evo.dt_of(c['dt']), 1, None, 1e-14, None, False, 0)
                    states[cur.iteration] = (dense.vec(cur.mps), 0.0)
                evo.steps(ref, sp, evo.dt_of(c['dt']), c['n'], None, 1e-14, c['cp'], c['keep'], 0)
            good.append((states, dense.vec(ref.mps), ref.iteration, ref.time, ref.truncatedWeight))
    clear = model.clear
    # disturbed
    d = disk.SimDisk(ctx.scratch(), case['faults'])
    failures = 0
    with d:
        eng, _, _ = evo.build(L, sp)
        t = 0.0
        for i, c in enumerate(case['calls']):
            left = c['n']
            tries = 0
            while True:
                it0 = eng.iteration
                nf = len(d.fired)
                what = 'call %d %s, %d steps left' % (i, c, left)
                try:
                    evo.steps(eng, sp, evo.dt_of(c['dt']), left, c['D'], c['th'], c['cp'], c['keep'], 0)
                    done = eng.iteration - it0
                    need(done == left, 'steps', '%s: %d performed' % (what, done))
                    f = d.fired[nf:]
                    need(not f, 'error swallowed', '%s: disk errors %s did not reach the caller' % (what, f))
                    t += abs(evo.dt_of(c['dt']).imag) * done
                    left = 0
                except OSError as e:
                    need(len(d.fired) > nf, 'unexpected error', '%s: %r' % (what, e))
                    failures += 1
                    done = eng.iteration - it0
                    what = '%s: after %s during a checkpoint' % (what, d.fired[-1][:2])
                    need(0 < done <= left, 'steps', '%s %d steps counted' % (what, done))
                    t += abs(evo.dt_of(c['dt']).imag) * done
                    need(abs(eng.time - t) < 1e-10, 'time', '%s: time %.12g, %.12g expected' % (what, eng.time, t))
                    v = dense.vec(eng.mps)
                    exp = good[i][0].get(eng.iteration)
                    need(exp is not None, 'steps', '%s: failed with step count %d, no checkpoint is due after it' % (what, eng.iteration))
                    if clear:
                        need(dense.close(v, exp[0], max(tol, 1e-6)) or m == 'tdvp' and dense.fidelity_dev(v, exp[0]) < 10 * tol, 'state after failure', '%s the state is not the one after %d steps: %s' % (
                            what, eng.iteration, dense.dev(v, exp[0])))
                        need(m != 'tebd' or abs(eng.truncatedWeight - exp[1]) < 1e-8, 'truncated weight', '%s: %.10g, expected %.10g' % (what, eng.truncatedWeight, exp[1]))
                    ctx.state(m, d.fired[-1][:2], eng.iteration, tuple(eng.mps.D))
                    ctx.log(d.fired[-1][:2], eng.iteration, tuple(eng.mps.D))
                    left -= done
                    tries += 1
                    if tries > 6:
                        d.enabled = False
                if left == 0:
                    break
            _, v, it, tt, tw = good[i]
            w = dense.vec(eng.mps)
            what = 'after call %d (%d failures so far)' % (i, failures)
            need(eng.iteration == it and abs(eng.time - tt) < 1e-10, 'counters', '%s: %s, undisturbed run has %s' % (what, (eng.iteration, eng.time), (it, tt)))
            if clear:
                need(abs(eng.truncatedWeight - tw) < 1e-8, 'truncated weight', '%s: %.10g, undisturbed run has %.10g' % (what, eng.truncatedWeight, tw))
                need(dense.close(w, v, tol), 'state', '%s: state deviates from the undisturbed run by %s' % (what, dense.dev(w, v)))
            else:
                ctx.count('unclear cut')
            ctx.simtime += abs(evo.dt_of(c['dt'])) * c['n']
        left = [f for f in os.listdir(d.root) if not f.endswith('.pickle') and not any(x[0] in ('remove', 'any') for x in d.fired)]
        need(not left, 'debris', 'files left behind by failed checkpoints: %s' % left)
    for kind, err, _ in d.fired:
        ctx.fault('disk %s %s' % (kind, err))
    ctx.count('failures that reached the caller', failures)
    ctx.nontrivial = failures > 0


def run_opt(case, ctx):
    L = boot.lib()
    c = case['opt']
    SEAM.v0rng.seed(c['v0'])
    L.np.random.seed(c['npseed'] % (1 << 32))
    SEAM.budget = 200000
    failures = 0
    d = disk.SimDisk(ctx.scratch(), case['faults'])
    with d:
        D = c15.DRIVER[c['algo']](L, c, ctx)
        for i, p in enumerate(case['parts']):
            nf = len(d.fired)
            what = 'part %d of %s' % (i, c['algo'])
            try:
                D.run(p['n'], p['cp'], what)
                need(len(d.fired) == nf, 'error swallowed', '%s: disk errors %s did not reach the caller' % (what, d.fired[nf:]))
            except OSError as e:
                need(len(d.fired) > nf, 'unexpected error', '%s: %r' % (what, e))
                failures += 1
                if c['algo'] == 'vumps':
                    D.done += p['n']
                    D.calls += 1
                ctx.state(c['algo'], d.fired[-1][:2], i)
            # a variational bound holds for any state
            D.judge(what)
        d.enabled = False
        e = D.run(D.final, 0, 'final run')
        D.judge_final(e, 'final run after %d failed checkpoints' % failures)
    for kind, err, _ in d.fired:
        ctx.fault('disk %s %s' % (kind, err))
    ctx.count('failures that reached the caller', failures)
    ctx.count('algo:' + c['algo'])
    ctx.nontrivial = failures > 0


def run_dmrg(case, ctx):
    L = boot.lib()
    ham = gen.Ham(L, case['ham'])
    w, _ = ham.gs
    E0, sc = w[0], max(1.0, abs(w[0]), abs(w[-1]))
    mps = gen.make_state(L, case['state'])
    N = len(mps)
    d = mps.d
    fullD = max(min(int(np.prod(d[:n])), int(np.prod(d[n:]))) for n in range(N + 1))
    mps.position(0)
    mps.resetZ()
    failures = 0
    sd = disk.SimDisk(ctx.scratch(), case['faults'])
    with sd:
        dm = L.en.DMRGengine(mps, ham.mpo, 'run')
        mpo0 = dense.mpo_matrix(ham.mpo)
        for k, f in enumerate(case['fails']):
            name = 'svd' if f['what'] == 'svd' and f['two'] else c11.SOLVERCALL[f['solver']]
            err = f['err']
            if name in ('svd', 'eigh') and err.startswith('Arpack'):
                err = 'LinAlgError'
            SEAM.plan[name] = {SEAM.counts.get(name, 0) + int(f['x'] * 2 * (N - 1) * f['n']): err}
            fired = sum(SEAM.fired.values())
            what = 'run %d (%s-site, %s) with %s failing in %s' % (k, 'two' if f['two'] else 'one', f['solver'], err, name)
            nf = len(sd.fired)
            try:
                e = c11.sweep(dm, f['two'], f['solver'], f['n'], 1 if case['faults'] else None, econv=0.0)
                need(len(sd.fired) == nf, 'error swallowed', '%s: disk errors %s did not reach the caller' % (what, sd.fired[nf:]))
                need(name == 'svd' or sum(SEAM.fired.values()) == fired, 'error swallowed', '%s: the failure did not reach the caller, energy %s returned' % (what, e))
                need(e > E0 - 1e-5 * sc, 'variational', '%s: %.10g below the ground state %.10g' % (what, e, E0))
            except Exception as ex:
                if hasattr(ex, 'kind'):
                    raise
                if sum(SEAM.fired.values()) == fired and not (isinstance(ex, OSError) and len(sd.fired) > nf):
                    raise
                failures += 1
                ctx.state(name, err, f['two'], tuple(dm.mps.D))
            SEAM.plan = {}
            v = dense.vec(dm.mps)
            need(np.all(np.isfinite(v)) and dense.norm(v) > 1e-10, 'state after failure', '%s: norm of the state %s' % (what, dense.norm(v)))
            ctx.log(name, err, tuple(dm.mps.D))
        need(dense.close(dense.mpo_matrix(ham.mpo), mpo0, 1e-14), 'Hamiltonian changed', 'MPO modified')
        sd.enabled = False
        dm.mps.Dmax = max(fullD, dm.mps.Dmax)
        e = c11.sweep(dm, True, case['final'], 30)
        Es = ham.energy(dense.vec(dm.mps)).real
        need(abs(e - E0) < 1e-6 * sc and abs(Es - E0) < 1e-6 * sc, 'convergence', 'after %d failed runs DMRG ends at %.10g (state: %.10g), ground state %.10g' % (failures, e, Es, E0))
        need(abs(dense.norm(dense.vec(dm.mps)) - 1) < 1e-7, 'norm', 'norm of the final state %.10g' % dense.norm(dense.vec(dm.mps)))
    hist.note_faults(ctx)
    for kind, err, _ in sd.fired:
        ctx.fault('disk %s %s' % (kind, err))
    ctx.count('failures that reached the caller', failures)
    ctx.simtime += 30
    ctx.nontrivial = failures > 0


def simplify(case):
    if case['kind'] == 'opt':
        return
    if case['kind'] == 'dmrg':
        d = case['state']['d']
        if len(d) > 3:
            c = copy.deepcopy(case)
            c['state']['d'] = d[:-1]
            c['ham']['N'] = len(d) - 1
            c['ham']['d'] = d[:-1]
            yield c
        return
    for c in evo_simplify(case):
        yield c
    for i, s in enumerate(case['calls']):
        for key, val in (('n', s['n'] - 1), ('cp', 1), ('D', None), ('th', 1e-14)):
            if key == 'n' and not 0 < val < s['n']:
                continue
            if s[key] != val:
                c = copy.deepcopy(case)
                c['calls'][i][key] = val
                yield c
