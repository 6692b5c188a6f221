"""C12: passing failures of the numerical back ends are absorbed without trace."""
import copy
import numpy as np
from scipy.sparse.linalg import ArpackNoConvergence
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from ..numseam import SEAM
from . import c14, c15

PROP = 'C12'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 800, 'thorough': 60000}
LISTS = ['ops', 'faults']
MINLEN = {'ops': 1, 'faults': 1}
RULE = ('a case is a finite or infinite state and a list of operations that contain handlers for back-end failures (decompositions, transfer-matrix eigenvectors, regauging, infinite environments, TEBD, '
        'infinite DMRG, gradient and VUMPS runs); every operation is carried out twice from the same state, once undisturbed and once with seeded failures placed at random calls of the undisturbed run; non-trivial if a '
        'failure fired and the two results were compared')
REAL = ['lib.mpslib.mpsfunctions.svd/prepareTruncate/TMeigs/UnitcellTMeigs/RENORMBLOCKHAMGMRES/regauge/regaugeIMPS/canonizeMPS/getBoundaryHams', 'lib.mpslib.mps.MPS', 'lib.mpslib.engines', 'LAPACK/ARPACK/lgmres between injected failures']
STUBS = ['svd raises LinAlgError, eigs raises ArpackError or returns a spurious complex eigenvalue, lgmres reports breakdown, at planned calls', 'files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (operation, kind of failure, call number, center position, bond dimensions)'
TIMEUNIT = 'operations'
ASSUMPTIONS = ['failures are transient: a decomposition does not fail twice in a row; states have norms of order one', 'infinite states as in C14']
FIN = ['truncate', 'truncate', 'canonize', 'schmidt', 'gate', 'gate', 'add', 'prepare', 'prepare', 'svd', 'tebd', 'tebd', 'position', 'compress']
INF = ['TMeigs', 'TMeigs', 'unitcell', 'single', 'single', 'list', 'left', 'right', 'symmetric', 'icanonize', 'itruncate', 'hams', 'hams', 'env', 'env', 'imeasure']
RUNS = ['vumps', 'vumps', 'vumps', 'grad', 'idmrg1', 'idmrg2']


def make(rng, tier):
    big = tier == 'thorough'
    x = rng.random()
    c = {'npseed': rng.randrange(1 << 30), 'v0': rng.randrange(1 << 30)}
    if x < 0.5:
        d = gen.pick_dims(rng, 2, 8 if big else 6, 400 if big else 100)
        c.update(kind='finite', state=gen.state_spec(rng, d, 8))
        names = FIN
    elif x < 0.9:
        N = rng.choice([1, 1, 2, 3])
        c.update(kind='infinite', state={'D': [rng.randint(3, 6)] * N if rng.random() < 0.6 else [rng.randint(3, 5) for _ in range(N)], 'd': [rng.choice([2, 2, 3])] * N, 'cplx': rng.random() < 0.5,
                                         'kind': rng.choice(['gauss', 'positive', 'wide']), 'pad': 1, 'seed': rng.randrange(1 << 30)})
        names = INF
    else:
        c.update(kind='runs', state=None)
        names = RUNS
    c['ops'] = [{'op': rng.choice(names), 'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 's': rng.randrange(1 << 30), 'D': rng.choice([None, 1, 2, 3, 4, 6]), 'th': rng.choice([1e-16, 1e-10, 1e-6, 1e-3])}
                for _ in range(rng.randint(1, 5) if c['kind'] != 'runs' else 1)]
    c['faults'] = []
    for i in range(len(c['ops'])):
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6]) if c['kind'] != 'runs' else rng.randint(1, 25)):
            name, f = rng.choice([('svd', 'LinAlgError')] if c['kind'] == 'finite' else [('eigs', 'complex'), ('eigs', 'ArpackError'), ('lgmres', 'breakdown'), ('svd', 'LinAlgError')])
            c['faults'].append([i, name, round(rng.random(), 4), f, rng.choice([1, 1, 2, 3])])
    return c


# which failures an operation handles (getBoundaryHams asks ARPACK for machine precision, which it can
# give for one eigenvalue and not always for two; so no spurious eigenvalue there)
HANDLES = {'unitcell': ['complex'], 'list': ['complex'], 'left': ['complex'], 'right': ['complex'], 'symmetric': ['complex'], 'icanonize': ['complex'],
           'itruncate': ['complex'], 'hams': ['breakdown'], 'TMeigs': ['complex', 'ArpackError'], 'single': ['complex', 'ArpackError'], 'env': ['breakdown'], 'imeasure': ['complex'],
           'vumps': ['complex', 'ArpackError', 'breakdown', 'LinAlgError'], 'grad': ['complex', 'ArpackError', 'breakdown'], 'idmrg1': ['breakdown'], 'idmrg2': ['breakdown']}
REPEAT = ('TMeigs', 'single', 'env', 'vumps', 'grad', 'unitcell', 'list', 'left', 'right', 'symmetric', 'icanonize', 'imeasure')


def plan(case, i, op, calls):
    """call numbers inside the operation, from the number of calls the undisturbed operation made"""
    out = {}
    for j, name, x, f, rep in case['faults']:
        if j != i or f not in HANDLES.get(op, ['LinAlgError']) or not calls.get(name):
            continue
        p = out.setdefault(name, {})
        n = int(x * calls[name])
        rep = rep if op in REPEAT and name != 'svd' else 1
        if any(abs(n - k) < 6 for k in p):
            continue
        for k in range(rep):
            p[n + k] = f
    return out


def reset(case, op):
    SEAM.reset()
    SEAM.budget = 60000
    SEAM.v0rng.seed(case['v0'])
    boot.lib().np.random.seed((case['npseed'] + op['s']) % (1 << 32))


def twice(case, i, op, f, obj, ctx):
    """result of f on two copies, undisturbed and disturbed; None if nothing could fail"""
    total = dict(SEAM.fired)
    a, b = copy.deepcopy(obj), copy.deepcopy(obj)
    reset(case, op)
    ra = f(a)
    calls = dict(SEAM.counts)
    p = plan(case, i, op['op'], calls)
    if not any(p.values()):
        SEAM.fired = total
        return a, None, ra, None
    reset(case, op)
    SEAM.plan = p
    rb = f(b)
    n = sum(SEAM.fired.values())
    for k, v in SEAM.fired.items():
        total[k] = total.get(k, 0) + v
    now = dict(SEAM.counts)
    SEAM.plan = {}
    SEAM.fired = total
    planned = dict((k, len(v)) for k, v in p.items())
    if op['op'] not in RUNS:
        for k in planned:
            need(now.get(k, 0) <= calls[k] + 2 * planned[k], 'attempts', '%s: %d calls of %s, %d without the %d failures' % (op['op'], now.get(k, 0), k, calls[k], planned[k]))
    for k, v in p.items():
        for m, ff in v.items():
            ctx.state(op['op'], ff, m)
    return a, b, ra, rb if n else None


def run(case, ctx):
    {'finite': finite, 'infinite': infinite, 'runs': runs}[case['kind']](case, ctx)
    hist.note_faults(ctx)


def close(a, b, tol, what, kind='result'):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    need(a.shape == b.shape and np.all(np.isfinite(b)) and dense.norm(a - b) <= tol * max(1.0, dense.norm(a)), kind, '%s: with failures %s, without %s' % (what, describe(b), describe(a)))


def describe(a):
    return '%s%s' % (np.shape(a), np.asarray(a).ravel()[:6])


def finite(case, ctx):
    L = boot.lib()
    mps = gen.make_state(L, case['state'])
    mps.position(0)
    mps.resetZ()
    d = mps.d
    N = len(mps)
    compared = 0
    hs = gen.Ham(L, {'kind': 'generic', 'N': N, 'd': list(d), 'cplx': case['state']['cplx'], 'seed': case['npseed'], 'scale': 1.0})
    with disk.SimDisk(ctx.scratch()):
        for i, op in enumerate(case['ops']):
            o = op['op']
            what = 'op %d %s' % (i, o)
            bond = hist.bond_of(op['x'], N)
            clear = True
            v = dense.vec(mps)
            if o == 'position':
                def f(m):
                    m.position(bond)
                    return []
            elif o == 'truncate':
                D, th = op['D'], op['th']
                for n in range(1, N):
                    s = dense.schmidt(v / dense.norm(v), n)
                    clear = clear and dense.clear_cut(s, D, th, 1e-4)

                def f(m):
                    m.truncate(th, D)
                    return []
            elif o == 'canonize':
                def f(m):
                    m.canonize()
                    return [np.sort(np.diag(x) if np.ndim(x) == 2 else x)[::-1] for x in m._lambda]
            elif o == 'schmidt':
                def f(m):
                    s = m.getSchmidt(bond)
                    return [np.sort(np.diag(s) if np.ndim(s) == 2 else s)[::-1]]
            elif o == 'gate':
                n = min(N - 2, int(op['x'] * (N - 1)))
                q = np.linalg.qr(gen.rmat(gen.rs(op['s']), d[n] * d[n + 1], d[n] * d[n + 1], case['state']['cplx']))[0]
                G = q.reshape(d[n], d[n + 1], d[n], d[n + 1])
                D, th = op['D'], op['th']
                clear = dense.clear_cut(dense.schmidt(dense.apply_sites(v, q, n, 2), n + 1), D, th)

                def f(m):
                    # the gate acts at the center of the state
                    m.position(n + 1)
                    return list(m.applyTwoSiteGate(G, n, D, th))[:1]
            elif o == 'add':
                other = gen.make_state(L, dict(case['state'], seed=op['s']))

                def f(m):
                    y = m + other
                    y.truncate(1e-12)
                    return [dense.vec(y)]
            elif o in ('prepare', 'svd'):
                r = gen.rs(op['s'])
                sh = (1 + int(op['x'] * 6), 1 + int(op['y'] * 6), 2 + op['s'] % 2)
                t = r.standard_normal(sh) + (1j * r.standard_normal(sh) if case['state']['cplx'] else 0)
                if op['s'] % 5 == 0:
                    t[:, -1] = 0.3 * t[:, 0]
                D, th = op['D'], op['th']
                dr = 1 if op['s'] % 2 else -1
                mat = np.reshape(np.transpose(t, (2, 0, 1)), (-1, sh[1])) if dr > 0 else np.reshape(t, (sh[0], -1))
                sv = np.linalg.svd(mat, full_matrices=False)[1]
                if o == 'prepare':
                    clear = dense.clear_cut(sv, D, th)

                    def f(m):
                        a, s, b, Z = L.mf.prepareTruncate(np.array(t), direction=dr, D=D, thresh=th)
                        if dr > 0:
                            x = np.tensordot(a, np.diag(s).dot(b), ([1], [0]))
                            e = c14.ortho(a, True) + dense.norm(b.dot(np.conj(b).T) - np.eye(len(b)))
                        else:
                            x = np.tensordot(a.dot(np.diag(s)), b, ([1], [0]))
                            e = c14.ortho(b, False) + dense.norm(np.conj(a).T.dot(a) - np.eye(a.shape[1]))
                        return [s, Z, x, np.array(e < 1e-8)]
                else:
                    def f(m):
                        u, s, w = L.mf.svd(mat)
                        return [s, np.dot(u * s, w), np.conj(u).T.dot(u), w.dot(np.conj(w).T)]
            elif o == 'tebd':
                D, th = op['D'], op['th']
                dt = [-0.05, 0.1, -0.1][op['s'] % 3]
                n = 1 + op['s'] % 3
                model = evo.TEBDModel(hs, v)
                model.call(dt, n, D, th)
                clear = model.clear

                def f(m):
                    e = L.en.TimeEvolutionEngine.TEBD(m, hs.mpo, 'run')
                    r = e.doTEBD(dt=dt, numsteps=n, Dmax=D or 10 ** 4, tr_thresh=th, verbose=0)
                    return [r[0], r[1], e.truncatedWeight, dense.vec(e.mps)]
            elif o == 'compress':
                # one-site sweeps without truncation after the bond dimension was raised by a sum
                def f(m):
                    y = m + m
                    y.truncate(1e-10)
                    y.position(N)
                    return [dense.vec(y), [len(y.getSchmidt(n)) for n in range(1, N)] if case['state']['kind'] in ('list', 'random') else 0]
            a, b, ra, rb = twice(case, i, op, f, mps, ctx)
            if rb is not None and clear:
                for x, y in zip(ra, rb):
                    close(x, y, 1e-7 if o == 'tebd' else 1e-8, what)
                if True:
                    va, vb = dense.vec(a), dense.vec(b)
                    need(dense.close(vb, va, 1e-8, max(1.0, dense.norm(va))), 'state', '%s: the state deviates by %s from the one without failures' % (what, dense.dev(vb, va)))
                    if o != 'canonize':
                        need(a.pos == b.pos and [t.dtype for t in a.tensors] == [t.dtype for t in b.tensors], 'state', '%s: center %s, dtypes %s, without failures %s' % (what, b.pos, b.dtype, (a.pos, a.dtype)))
                    if a.D != b.D:
                        need(o in ('truncate', 'gate', 'tebd', 'position', 'canonize', 'schmidt') and (op['th'] < 1e-9 or case['state']['kind'] in ('deficient', 'product', 'ones')), 'bond dimensions',
                             '%s: %s, without failures %s' % (what, b.D, a.D))
                compared += 1
                ctx.count('compared:' + o)
            ctx.state(o, mps.pos, tuple(mps.D))
            ctx.log(o, mps.pos, tuple(mps.D))
            if b is not None and clear:
                mps = b
            if dense.norm(dense.vec(mps)) < 1e-3:
                break
    ctx.simtime += len(case['ops'])
    ctx.nontrivial = compared > 0


def infinite(case, ctx):
    L = boot.lib()
    st = case['state']
    m = c14.build(L, st)
    N = len(m)
    ref = c14.Physics(c14.cell(m))
    if ref.gap > 0.95 or min(np.min(ref.schmidt(n)[:st['D'][n]]) for n in range(N)) < 1e-2:
        return
    L.np.random.seed(case['npseed'] % (1 << 32))
    m.regauge(gauge='symmetric')
    compared = 0
    for i, op in enumerate(case['ops']):
        o = op['op']
        what = 'op %d %s' % (i, o)
        ts = c14.cell(m)
        g = ['left', 'right', 'symmetric'][op['s'] % 3]
        dr = 1 if op['s'] % 2 else -1

        def phys(ts):
            p = c14.Physics(ts)
            return np.concatenate([p.values(7).ravel(), np.concatenate([p.schmidt(n) for n in range(N + 1)])])
        if o in ('TMeigs', 'single', 'env') and N > 1:
            continue
        if o in ('TMeigs', 'unitcell'):
            def f(q):
                if o == 'TMeigs':
                    eta, x, _ = L.mf.TMeigs(np.array(ts[0]), dr, 3, init=None, nmax=4000, tolerance=1e-12, ncv=9, which='LR')
                else:
                    eta, x, _ = L.mf.UnitcellTMeigs([np.array(t) for t in ts], direction=dr, numeig=1 + op['s'] % 2, init=None, nmax=4000, tolerance=1e-12, ncv=9)
                D = ts[0].shape[0]
                x = np.reshape(x, (D, D))
                return [eta, x / np.trace(x)]
        elif o == 'single':
            def f(q):
                out = L.mf.regauge(np.array(ts[0]), gauge=g, numeig=3, initial=None)
                t = np.tensordot(np.diag(out[1]), out[0], ([1], [0])) if g == 'symmetric' else out[0]
                return [phys([t]), np.array(c14.ortho(t, g != 'right') < 1e-5)]
        elif o == 'list':
            def f(q):
                t = [np.array(x) for x in ts]
                L.mf.regaugeIMPS(t, gauge=g, truncate=1e-16)
                return [phys(t), np.array(all(c14.ortho(x, g != 'right') < 1e-5 for x in t))]
        elif o == 'hams':
            if set(st['d']) != {2} or N > 3:
                continue
            mpo = L.H.TFI(-np.ones(N), np.array([0.4, 0.9, 1.3][:N]), obc=False)

            def f(q):
                # with the state's own gauge fixed, the environments are numbers that can be compared
                q.position(N)
                lb, rb, _, _, hl, hr = L.mf.getBoundaryHams(q, mpo, regauge=True)
                return [hl, hr, phys(c14.cell(q)), np.array(np.all(np.isfinite(lb)) and np.all(np.isfinite(rb)))]
        elif o == 'env':
            if st['d'][0] != 2:
                continue
            t = np.array(ts[0])
            A, l = L.mf.regauge(np.array(t), gauge='left' if dr > 0 else 'right', initial=None, numeig=3)
            D = A.shape[0]
            _, x, _ = L.mf.TMeigs(np.array(A), -dr, 3, init=None, nmax=4000, tolerance=1e-13, ncv=9)
            x = np.reshape(x, (D, D))
            x = x / np.trace(x)
            inh = gen.rmat(gen.rs(op['s']), D, D, st['cplx'])
            z = np.tensordot(inh, x, ([0, 1], [0, 1]))
            inh = inh - z * np.eye(D)

            def f(q):
                if dr > 0:
                    return [L.mf.RENORMBLOCKHAMGMRES(A, A, x, np.eye(D), inh, x0=None, tolerance=1e-12, maxiteration=2000, direction=1)]
                return [L.mf.RENORMBLOCKHAMGMRES(A, A, np.eye(D), x, inh, x0=None, tolerance=1e-12, maxiteration=2000, direction=-1)]
        elif o == 'imeasure':
            A = [gen.random_op(op['s'] + n, x, st['cplx']) for n, x in enumerate(st['d'])]

            def f(q):
                q.regauge(gauge='symmetric')
                q.resetZ()
                return [q.measure([A[n]], [n]) for n in range(N)]
        else:
            def f(q):
                if o == 'icanonize':
                    q.canonize()
                elif o == 'itruncate':
                    q.truncate(1e-12, None, [None, 'left', 'right', 'symmetric'][op['s'] % 4])
                else:
                    q.regauge(gauge=o)
                s = np.sort(np.abs(np.diag(q._mat)))[::-1] if o in ('symmetric', 'icanonize') else 0.0
                return [phys(c14.cell(q)), q.pos, list(q.D), s, np.array([c14.ortho(x, n < q.pos) < 1e-5 for n, x in enumerate(q.tensors)])]
        try:
            a, b, ra, rb = twice(case, i, op, f, m, ctx)
        except ArpackNoConvergence as e:
            # ARPACK itself gave up on more than one eigenvalue, and the caller was told
            if len(e.eigenvalues) != 1 or '1/2' not in str(e):
                raise
            SEAM.plan = {}
            ctx.count('ARPACK did not converge to two eigenvalues')
            continue
        if rb is not None:
            for x, y in zip(ra, rb):
                close(x, y, 1e-6, what)
            compared += 1
            ctx.count('compared:' + o)
        ctx.state(o, N, tuple(m.D), m.pos)
        ctx.log(o, m.pos, tuple(m.D))
        if b is not None and o in ('left', 'right', 'symmetric', 'icanonize', 'itruncate'):
            m = b
    ctx.simtime += len(case['ops'])
    ctx.nontrivial = compared > 0


def runs(case, ctx):
    L = boot.lib()
    op = case['ops'][0]
    o = op['op']
    rng = __import__('random').Random(op['s'])
    c = c15.make(rng, 'quick')
    while c['algo'] != o:
        c = c15.make(rng, 'quick')
    c.update(faults=[], parts=[], cp=0, verbose=0)
    if o.startswith('idmrg'):
        c.update(rg=3, N=2, D=4, NUC=1, model='tfi', J=-1.0, B=[1.8, 0.5, 2.5][op['s'] % 3])
        n = 4 + op['s'] % 5
    elif o == 'grad':
        n = 5 + op['s'] % 20
    else:
        c['svd'] = c['svd'] or op['s'] % 3 > 0
        n = 60 if op['s'] % 3 == 0 else 3 + op['s'] % 30
    with disk.SimDisk(ctx.scratch()):
        class Quiet:
            simtime = 0

            def count(self, *a):
                pass

        def f(q):
            D = c15.DRIVER[o](L, c, Quiet())
            e = D.run(n, 0, 'run')
            v, ref = D.judge('run')
            w = 1.0
            if o == 'vumps':
                # how far the undisturbed run is from convergence limits how far the two may be apart
                w = max(1e-8, D.eng._gradnorm ** 2)
            return [v, ref.schmidt(0), w]
        a, b, ra, rb = twice(case, 0, op, f, None, ctx)
        if rb is not None:
            tol = {'vumps': 10 * max(1e-8, ra[2]), 'grad': 1e-6, 'idmrg1': 1e-5, 'idmrg2': 1e-5}[o]
            close(ra[0], rb[0], tol, '%s, %d iterations' % (o, n), 'energy')
            k = min(len(ra[1]), len(rb[1]))
            close(ra[1][:k], rb[1][:k], max(1e-5, tol ** 0.5) * 30, '%s, %d iterations: Schmidt values' % (o, n), 'Schmidt values')
            ctx.count('compared:' + o)
            ctx.nontrivial = True
        ctx.simtime += n
        ctx.state(o, c['solver'], c['cplx'], c['D'], n)


def simplify(case):
    if case['kind'] == 'finite':
        st = case['state']
        d = st['d']
        for n in sorted(set([2, 3, len(d) - 1])):
            if 2 <= n < len(d):
                c = copy.deepcopy(case)
                c['state']['d'] = d[:n]
                yield c
    for i, f in enumerate(case['faults']):
        if f[4] > 1:
            c = copy.deepcopy(case)
            c['faults'][i][4] = 1
            yield c
