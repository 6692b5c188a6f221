"""C11: finite DMRG is variational, consistent, and converges after any history."""
import copy, os, pickle
import numpy as np
from .. import boot, dense, gen, hist, disk, frame
from ..hist import need
from ..numseam import SEAM
from .c10 import full

PROP = 'C11'
LEVEL = 'exploration'
COUNTS = {'quick': 700, 'thorough': 24000}
LISTS = ['ops']
MINLEN = {'ops': 1}
RULE = ('a case is a chain, a Hamiltonian with varying couplings, a random start and a seeded history of DMRG runs (one- and two-site, three solvers, bond limits), engine and state '
        'repositioning, truncation, updates, observations, checkpoint restarts, engine save/load and one-off solver failures; non-trivial if at least two runs completed')
REAL = ['lib.mpslib.engines.DMRGengine', 'lib.mpslib.engines.Container', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.Lanczos', 'pickle', 'ARPACK/LAPACK between injected failures']
STUBS = ['eigsh/lobpcg/svd raise at the planned calls', 'files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (operation, solver, center position, bond dimension profile)'
TIMEUNIT = 'sweeps'


def gen_op(rng):
    o = rng.choice(['run'] * 8 + ['position', 'mpsposition', 'truncate', 'update', 'measure', 'measure', 'restart', 'saveload', 'schmidt', 'measureLocal', 'fail', 'setD'])
    return {'op': o, 'x': round(rng.random(), 4), 'two': rng.random() < 0.45, 'solver': rng.choice(['AR', 'AR', 'LAN', 'LAN', 'LOBPCG']), 'n': rng.choice([1, 1, 2, 3, 4]),
            'D': rng.choice([1, 2, 3, 4, 8]), 'th': rng.choice([1e-12, 1e-8, 1e-4]), 's': rng.randrange(1 << 30), 'verbose': rng.choice([0, 0, 1])}


def make(rng, tier):
    big = tier == 'thorough'
    if rng.random() < 0.1:
        ops = [gen_op(rng) for _ in range(rng.randint(2, 8))]
        return {'kind': 'frame', 'frame': frame.spec(rng), 'ops': [o for o in ops if o['op'] not in ('truncate', 'measure', 'measureLocal', 'fail', 'setD')], 'final': rng.choice(['two', 'one']),
                'fsolver': rng.choice(['AR', 'LAN']), 'npseed': rng.randrange(1 << 30)}
    d = gen.pick_dims(rng, *rng.choice([(3, 6, 80)] * 3 + [(6, 9, 520) if big else (6, 8, 260)]), (2, 2, 2, 3))
    N = len(d)
    kind = rng.choice(['generic', 'generic', 'generic', 'xxz', 'tfi']) if all(x == 2 for x in d) else 'generic'
    h = gen.ham_spec(rng, N, kinds=[kind])
    if kind == 'generic':
        h['d'] = d
    else:
        h['cplx'] = False
    st = gen.state_spec(rng, d, 6)
    if rng.random() < 0.4:
        st['D'] = 64
        st['kind'] = 'list'
    return {'state': st, 'ham': h, 'ops': [gen_op(rng) for _ in range(rng.randint(2, 8))], 'final': rng.choice(['two', 'two', 'one']), 'fsolver': rng.choice(['AR', 'LAN']),
            'npseed': rng.randrange(1 << 30)}


def sweep(dm, two, solver, n, cp=None, verbose=0, econv=1e-10, truncation=1e-12):
    kw = dict(Nmax=n, Econv=econv, tol=1e-10, ncv=20, cp=cp, verbose=verbose, solver=solver, nmaxlan=200, landelta=1e-10, landeltaEta=1e-11, Ndiag=4)
    if two:
        return dm.simulateTwoSite(truncation=truncation, **kw)
    return dm.simulate(**kw)


SOLVERCALL = {'AR': 'eigsh', 'LOBPCG': 'lobpcg', 'LAN': 'eigh'}


def run_frame(case, ctx):
    """a stretch of a chain with environments given by the user"""
    L = boot.lib()
    sp = case['frame']
    mps, mpo, lb, rb, ham = frame.build(L, sp)
    w = np.linalg.eigvalsh(ham.M)
    E0, sc = w[0], max(1.0, abs(w[0]), abs(w[-1]))
    N = len(mps)
    fullD = max(min(int(np.prod(sp['d'][:n])), int(np.prod(sp['d'][n:]))) for n in range(1, N + 2))
    mps.Dmax = max(sp['D'], max(mps.D))
    keep = [np.copy(x) for x in (lb, rb)]
    runs = 0

    def en(dm):
        v = frame.vec(dm.mps)
        need(abs(dense.norm(v) - 1) < 1e-7, 'norm', '%s: norm of the state %.10g' % (what, dense.norm(v)))
        return ham.energy(v).real

    with disk.SimDisk(ctx.scratch()):
        what = 'start'
        dm = L.en.DMRGengine(mps, mpo, 'run', lb, rb)
        E = en(dm)
        have_cp = False
        for k, op in enumerate(case['ops'] + [{'op': 'final'}]):
            o = op['op']
            what = 'op %d %s (given environments)' % (k, o)
            if o in ('run', 'final'):
                if o == 'final':
                    two = case['final'] == 'two'
                    dm.mps.Dmax = max(fullD, dm.mps.Dmax)
                    e = sweep(dm, two, case['fsolver'], 30)
                    solver = case['fsolver']
                else:
                    two, solver = op['two'], op['solver']
                    e = sweep(dm, two, solver, op['n'], 1 if op['s'] % 2 else None, op['verbose'])
                    have_cp = have_cp or op['s'] % 2 == 1
                unt = not two or dm.mps.Dmax >= fullD
                tol = (3e-5 if solver == 'LOBPCG' else 1e-7) * sc
                Es = en(dm)
                need(np.isfinite(e) and abs(np.imag(e)) < 1e-8 * sc, 'energy', '%s: returned %s' % (what, e))
                need(Es > E0 - 1e-8 * sc and e > E0 - (tol if solver == 'LOBPCG' else 1e-8 * sc), 'variational', '%s: energies %.12g (returned), %.12g (state), ground state %.12g' % (what, np.real(e), Es, E0))
                if unt:
                    need(abs(e - Es) < tol, 'energy of the state', '%s: returned energy %.12g, the state has %.12g' % (what, np.real(e), Es))
                    need(Es < E + (1e-3 if solver == 'LOBPCG' else 1e-6) * sc, 'energy rises', '%s: energy %.12g, before the run %.12g' % (what, Es, E))
                if o == 'final' and (two or sp['D'] == 64):
                    need(abs(Es - E0) < 1e-6 * sc, 'convergence', '%s: %s-site run (%s) ends at energy %.10g, ground state has %.10g' % (what, case['final'], case['fsolver'], Es, E0))
                    ctx.count('convergence')
                E = Es
                runs += 1
                ctx.count('frame run')
            elif o == 'position':
                dm.update()
                dm.position(hist.bond_of(op['x'], N))
            elif o == 'mpsposition':
                dm.mps.position(hist.bond_of(op['x'], N))
            elif o == 'update':
                dm.update()
            elif o == 'schmidt':
                dm.mps.getSchmidt(hist.bond_of(op['x'], N))
            elif o == 'restart':
                if have_cp:
                    m2 = L.MPS.random(2, 2, [2, 2], True)
                    m2.load('run_dmrg_cp')
                    dm = L.en.DMRGengine(m2, mpo, 'run', lb, rb)
                    E = en(dm)
                    ctx.count('restart from checkpoint')
            elif o == 'saveload':
                dm.save('engine')
                dm = L.en.Container().load('engine')
            e = en(dm)
            need(abs(e - E) < 1e-7 * sc, 'energy changed', '%s: energy of the state %.12g, before %.12g' % (what, e, E))
            ctx.count('op:' + o)
            ctx.state('frame', o, dm.mps.pos, tuple(dm.mps.D))
            ctx.log(o, dm.mps.pos, tuple(dm.mps.D), '%.6g' % E)
        need(np.array_equal(lb, keep[0]) and np.array_equal(rb, keep[1]), 'environments changed', 'the environments given by the user were modified')
    ctx.nontrivial = runs >= 2


def run(case, ctx):
    if case.get('kind') == 'frame':
        return run_frame(case, ctx)
    L = boot.lib()
    ham = gen.Ham(L, case['ham'])
    w, _ = ham.gs
    E0 = w[0]
    sc = max(1.0, abs(w[0]), abs(w[-1]))
    mps = gen.make_state(L, case['state'])
    N = len(mps)
    d = mps.d
    fullD = max(min(int(np.prod(d[:n])), int(np.prod(d[n:]))) for n in range(N + 1))
    mps.position(N)
    mps.position(0)
    mps.resetZ()
    runs = 0
    with disk.SimDisk(ctx.scratch()):
        mpo0 = dense.mpo_matrix(ham.mpo)
        dm = L.en.DMRGengine(mps, ham.mpo, 'run')
        E = energy(dm, ham)
        have_cp = False
        fail = None
        for k, op in enumerate(case['ops']):
            o = op['op']
            what = 'op %d %s' % (k, o)
            if o == 'run':
                what = 'op %d: %s-site run, %s, %d sweeps' % (k, 'two' if op['two'] else 'one', op['solver'], op['n'])
                if fail is not None:
                    name = SOLVERCALL[op['solver']]
                    SEAM.plan[name] = {SEAM.counts.get(name, 0) + int(fail * 2 * (N - 1) * op['n']): {'eigsh': 'ArpackNoConvergence', 'lobpcg': 'LinAlgError', 'eigh': 'LinAlgError'}[name]}
                E, ok = do_run(dm, ham, op['two'], op['solver'], op['n'], E, E0, sc, what, ctx, op['s'] % 2 == 0, op['verbose'], fullD, fail is not None)
                SEAM.plan = {}
                fail = None
                have_cp = have_cp or os.path.exists('run_dmrg_cp.pickle')
                if ok:
                    runs += 1
                ctx.simtime += op['n']
            elif o == 'fail':
                fail = op['x']
            elif o == 'position':
                dm.update()
                dm.position(hist.bond_of(op['x'], N))
                need(dm.mps.pos == hist.bond_of(op['x'], N), 'position', what)
            elif o == 'mpsposition':
                dm.mps.position(hist.bond_of(op['x'], N))
            elif o == 'update':
                dm.update()
                need(dm.mps.pos == 0, 'position', what)
            elif o == 'truncate':
                dm.truncateMPS(op['th'], op['D'])
                need(max(dm.mps.D) <= op['D'] or op['D'] > dm.mps.Dmax, 'bond limit', '%s: bond dimensions %s, limit %d' % (what, dm.mps.D, op['D']))
                E = energy(dm, ham)
            elif o == 'setD':
                # the limit is lowered on a state that may exceed it: the next two-site run has to respect it
                dm.mps.Dmax = max(1, op['D'] - 1)
            elif o in ('measure', 'measureLocal'):
                A = [gen.random_op(op['s'] + i, x, case['ham']['cplx']) for i, x in enumerate(d)]
                r = dm.measureLocal(A)
                v = dense.vec(dm.mps)
                for i in range(N):
                    x = dense.expect(v, [(i, A[i])])
                    need(hist.close_num(r[i], x, 1e-7, dense.norm(A[i]) * dense.norm(v) ** 2), 'measurement', '%s: site %d: %s, state vector gives %s' % (what, i, r[i], x))
            elif o == 'schmidt':
                dm.mps.getSchmidt(hist.bond_of(op['x'], N))
            elif o == 'restart':
                if have_cp:
                    m2 = L.MPS.random(N, 2, d, True)
                    m2.load('run_dmrg_cp')
                    dm = L.en.DMRGengine(m2, ham.mpo, 'run')
                    E = energy(dm, ham)
                    ctx.count('restart from checkpoint')
            elif o == 'saveload':
                dm.save('engine')
                dm = L.en.Container().load('engine')
            if o not in ('run', 'fail'):
                e = energy(dm, ham)
                need(abs(e - E) < 1e-7 * sc, 'energy changed', '%s: energy of the state %.12g, before %.12g' % (what, e, E))
            ctx.count('op:' + o)
            ctx.state(o, op['solver'], dm.mps.pos, tuple(dm.mps.D))
            ctx.log(o, dm.mps.pos, tuple(dm.mps.D), '%.6g' % E)
        # convergence
        if case['ham']['kind'] == 'generic':
            two = case['final'] == 'two'
            dm.mps.Dmax = max(fullD, dm.mps.Dmax)
            if two and case['state']['kind'] in ('list', 'random') or not two and full(dm.mps) and case['state']['kind'] == 'list' and not any(o['op'] == 'truncate' for o in case['ops']):
                e = sweep(dm, two, case['fsolver'], 30)
                need(abs(e - E0) < 1e-6 * sc, 'convergence', 'final %s-site run (%s) ends at energy %.10g, ground state has %.10g (gap %.3g)' % (
                    case['final'], case['fsolver'], e, E0, w[1] - w[0]))
                v = energy(dm, ham)
                need(abs(v - E0) < 1e-6 * sc, 'convergence', 'final state has energy %.10g, ground state %.10g' % (v, E0))
                ctx.count('convergence')
                runs += 1
        need(dense.close(dense.mpo_matrix(ham.mpo), mpo0, 1e-14), 'Hamiltonian changed', 'the MPO was modified')
    hist.note_faults(ctx)
    ctx.nontrivial = runs >= 2


def energy(dm, ham):
    return ham.energy(dense.vec(dm.mps)).real


def do_run(dm, ham, two, solver, n, E, E0, sc, what, ctx, cp, verbose, fullD, failing):
    fired = sum(SEAM.fired.values())
    D = dm.mps.Dmax
    unt = D >= fullD
    try:
        e = sweep(dm, two, solver, n, 1 if cp else None, verbose)
    except Exception:
        if not failing or sum(SEAM.fired.values()) == fired:
            raise
        ctx.count('run ended by solver failure')
        return energy(dm, ham), False
    if sum(SEAM.fired.values()) > fired:
        need(False, 'failure swallowed', '%s: an injected solver failure did not reach the caller' % what)
    v = dense.vec(dm.mps)
    Es = ham.energy(v).real
    need(abs(dense.norm(v) - 1) < 1e-7, 'norm', '%s: norm of the state %.10g' % (what, dense.norm(v)))
    need(np.isfinite(e) and abs(np.imag(e)) < 1e-8 * sc, 'energy', '%s: returned %s' % (what, e))
    tol = (3e-5 if solver == 'LOBPCG' else 1e-7) * sc
    if not two or unt:
        need(abs(e - Es) < tol, 'energy of the state', '%s: returned energy %.12g, the state has %.12g' % (what, e, Es))
    need(Es > E0 - 1e-8 * sc, 'variational', '%s: energy %.12g of the state below the ground state %.12g' % (what, Es, E0))
    need(e > E0 - (tol if solver == 'LOBPCG' else 1e-8 * sc), 'variational', '%s: returned energy %.12g below the ground state %.12g' % (what, e, E0))
    if not two or unt:
        need(Es < E + (1e-3 if solver == 'LOBPCG' else 1e-6) * sc, 'energy rises', '%s: energy %.12g, before the run %.12g' % (what, Es, E))
    if two:
        need(max(dm.mps.D) <= max(D, 1), 'bond limit', '%s: bond dimensions %s, limit %d' % (what, dm.mps.D, D))
    ctx.count('run:%s:%s' % ('two' if two else 'one', solver))
    return Es, True


def simplify(case):
    if case.get('kind') == 'frame':
        return
    st = case['state']
    d = st['d']
    if len(d) > 3:
        for n in sorted(set([3, len(d) - 1])):
            c = copy.deepcopy(case)
            c['state']['d'] = d[:n]
            c['ham']['N'] = n
            if 'd' in c['ham']:
                c['ham']['d'] = d[:n]
            yield c
    for i, op in enumerate(case['ops']):
        for key, val in (('n', 1), ('solver', 'AR'), ('verbose', 0)):
            if op[key] != val:
                c = copy.deepcopy(case)
                c['ops'][i][key] = val
                yield c
