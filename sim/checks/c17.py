"""C17: a run is a function of its inputs and the numpy seed."""
import copy, hashlib, io, os
import numpy as np
from .. import boot, dense, gen, hist, evo
from ..core import HarnessError
from ..hist import need
from ..numseam import SEAM
from . import c11, c14, c15

PROP = 'C17'
LEVEL = 'exploration'
COUNTS = {'quick': 260, 'thorough': 40000}
LISTS = ['steps', 'noise']
MINLEN = {'steps': 1}
RULE = ('a case is a program (building random states, arithmetic, gates, truncations, measurements, TEBD, TDVP, DMRG, saving and loading, infinite regauging and optimisers) carried out in two fresh processes that share inputs and '
        'numpy seed and differ in hash seed, clock (offset, speed, backward), process id, directory, environment, verbosity and in other work done before; non-trivial if the program made at least two steps')
REAL = ['lib.mpslib (all finite and infinite operations and engines)', 'lib.Lanczos', 'lib.ncon', 'numpy generator', 'LAPACK', 'ARPACK']
STUBS = ['clock (offset and rate)', 'ARPACK start vectors where the caller gives none (seeded)', 'stdout']
STATE_MEASURE = 'distinct (kind of step, number of steps before, amount of earlier work, verbosity)'
TIMEUNIT = 'program steps'
ASSUMPTIONS = ['one BLAS thread; ARPACK continues with an internal random state of its own after an exact invariant subspace: results obtained with it are compared within a tolerance, all others bit for bit']
BITWISE = {'random', 'ones', 'product', 'add', 'sub', 'scale', 'position', 'truncate', 'canonize', 'schmidt', 'measure', 'measurelist', 'overlap', 'gate', 'applympo', 'tebd', 'tdvp', 'dmrgLAN', 'dmrgLOBPCG', 'saveload',
           'matrixelement', 'mpo', 'copy'}
KINDS = ['random', 'random', 'ones', 'product', 'add', 'sub', 'scale', 'position', 'truncate', 'canonize', 'schmidt', 'measure', 'measurelist', 'overlap', 'gate', 'gate', 'applympo', 'tebd', 'tebd', 'tdvp', 'dmrgLAN', 'dmrgLAN',
         'dmrgAR', 'dmrgLOBPCG', 'saveload', 'matrixelement', 'mpo', 'copy', 'add']
INFK = ['iregauge', 'icanonize', 'vumps', 'idmrg', 'ihams', 'grad', 'itruncate']


def make_steps(rng, n):
    inf = rng.random() < 0.2
    out = []
    for _ in range(n):
        out.append({'k': rng.choice(INFK if inf and rng.random() < 0.7 else KINDS), 'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 's': rng.randrange(1 << 30)})
    return out


def make(rng, tier):
    big = tier == 'thorough'
    d = gen.pick_dims(rng, 3, 8 if big else 6, 400 if big else 100)
    return {'npseed': rng.randrange(1 << 30), 'd': d, 'cplx': rng.random() < 0.5, 'D': rng.randint(2, 6), 'steps': make_steps(rng, rng.randint(2, 9)), 'noise': make_steps(rng, rng.choice([0, 1, 2, 4])),
            'noise_d': gen.pick_dims(rng, 3, 5, 60), 'verbose': rng.choice([0, 1, 2]), 'clock': [rng.choice([0, 86400 * 365, -10 ** 8, 3.7]), rng.choice([1.0, 1000.0, -1.0, 0.0])], 'pyseed': rng.randrange(1 << 30), 'noise_npseed': rng.randrange(1 << 30)}


def program(L, req):
    """runs in the fresh process: earlier work, then the program"""
    case = req['case']
    if req['noise']:
        L.np.random.seed(case['noise_npseed'] % (1 << 32))
        SEAM.reset()
        SEAM.v0rng.seed(5)
        try:
            steps(L, dict(case, d=case['noise_d'], cplx=not case['cplx'], D=3), case['noise'], 0)
        except Exception:
            pass
        for f in os.listdir('.'):
            os.remove(f)
    SEAM.reset()
    SEAM.v0rng.seed(17)
    L.np.random.seed(case['npseed'] % (1 << 32))
    return steps(L, case, case['steps'], req['verbose'])


def pack(x):
    if isinstance(x, L_.MPS):
        return [np.array(t) for t in x.tensors] + [np.array(x._mat), np.array(x._connector), np.array(x.pos), np.array(x.D)]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in pack(y)]
    return [np.array(x)]


L_ = None


def steps(L, case, prog, verbose):
    global L_
    L_ = L
    d, cplx = case['d'], case['cplx']
    N = len(d)
    dt_ = complex if cplx else float
    out = []
    m = L.MPS.random(N, case['D'], d, True, dtype=dt_)
    m.position(0)
    m.resetZ()
    im = None
    other = L.MPS.random(N, 2, d, True, dtype=dt_)
    hs = gen.Ham(L, {'kind': 'generic', 'N': N, 'd': list(d), 'cplx': cplx, 'seed': case['npseed'], 'scale': 1.0})
    for i, s in enumerate(prog):
        k = s['k']
        bond, site = hist.bond_of(s['x'], N), hist.site_of(s['x'], N)
        r = None
        if k == 'random':
            m, other = L.MPS.random(N, 1 + s['s'] % 6, d, True, dtype=dt_), m
            m.position(N)
            m.position(0)
            m.resetZ()
        elif k == 'ones':
            r = L.MPS.ones(N, 2, d, True, dtype=dt_)
        elif k == 'product':
            r = L.MPS.productState([gen.rmat(gen.rs(s['s'] + j), 1, x, cplx)[0].astype(dt_) for j, x in enumerate(d)], obc=True, dtype=dt_)
        elif k == 'add':
            r = m + other
            if s['s'] % 2:
                m = r
                m.truncate(1e-10)
                m.resetZ()
        elif k == 'sub':
            r = m - other
        elif k == 'scale':
            m *= [2.0, -0.5][s['s'] % 2]
        elif k == 'position':
            m.position(bond)
        elif k == 'truncate':
            m.truncate(1e-8, 1 + s['s'] % 6)
        elif k == 'canonize':
            c = m.copy()
            c.canonize()
            r = list(c._gamma) + list(c._lambda)
        elif k == 'schmidt':
            r = m.getSchmidt(bond)
        elif k == 'measure':
            r = m.measure([gen.random_op(s['s'], d[site], cplx)], [site])
        elif k == 'measurelist':
            r = m.measureList([gen.random_op(s['s'] + j, x, cplx) for j, x in enumerate(d)])
        elif k == 'overlap':
            r = m.overlap(other) if hasattr(m, 'overlap') else L.mf.overlap(m, other)
        elif k == 'gate':
            n = min(N - 2, int(s['x'] * (N - 1)))
            q = np.linalg.qr(gen.rmat(gen.rs(s['s']), d[n] * d[n + 1], d[n] * d[n + 1], cplx))[0]
            m.position(n + 1)
            r = m.applyTwoSiteGate(q.reshape(d[n], d[n + 1], d[n], d[n + 1]), n, [None, 3, 4][s['s'] % 3], 1e-10)
        elif k == 'applympo':
            r = m.copy()
            r.position(0)
            r.applyMPO(hs.mpo)
        elif k == 'matrixelement':
            r = m.measureMatrixElementList(other, [gen.random_op(s['s'] + j, x, cplx) for j, x in enumerate(d)]) if hasattr(m, 'measureMatrixElementList') else 0
        elif k == 'mpo':
            r = list(L.H.XXZ(np.ones(N - 1), 0.7 * np.ones(N - 1), 0.2 * np.ones(N), True)._mpo) + list(hs.mpo._mpo)
        elif k == 'copy':
            m = copy.deepcopy(m) if s['s'] % 2 else m.copy()
        elif k == 'saveload':
            m.save('state')
            m = L.MPS.random(N, 1, d, True)
            m.load('state')
        elif k in ('tebd', 'tdvp'):
            if not cplx:
                m = m * (1.0 + 0j)
            m.position(0)
            m.resetZ()
            cls = L.en.TimeEvolutionEngine
            e = (cls.TEBD if k == 'tebd' else cls.TDVP)(m, hs.mpo, 'run')
            sp = {'method': k, 'krylov': 6, 'solver': ['LAN', 'SEXPMV', 'RK45'][s['s'] % 3]}
            evo.steps(e, sp, [-0.05j, -0.1, 0.07j][s['s'] % 3], 1 + s['s'] % 3, 6, 1e-10, [None, 1][s['s'] % 2], False, verbose)
            m = e.mps
            r = [e.time, e.truncatedWeight, e.iteration, e.measureLocal([gen.random_op(s['s'] + j, x, cplx) for j, x in enumerate(d)])]
        elif k.startswith('dmrg'):
            if N < 3:
                continue
            m.position(N)
            m.position(0)
            m.resetZ()
            m.Dmax = 8
            e = L.en.DMRGengine(m, hs.mpo, 'run')
            r = c11.sweep(e, s['s'] % 2 == 0 and k != 'dmrgLOBPCG', k[4:], 1 + s['s'] % 2, cp=[None, 1][s['s'] // 2 % 2], verbose=verbose)
            m = e.mps
            if k == 'dmrgAR':
                # what the solver leaves open
                r = [r, hs.energy(dense.vec(m))]
                m = L.MPS.random(N, 3, d, True, dtype=dt_)
                m.position(N)
                m.position(0)
                m.resetZ()
        else:
            if im is None:
                im = L.MPS.random(1 + s['s'] % 2, 4, 2, False, dtype=dt_)
            NI = len(im)
            if k == 'iregauge':
                im.regauge(gauge=['left', 'right', 'symmetric'][s['s'] % 3])
                r = c14.Physics(c14.cell(im)).schmidt(0)
            elif k == 'icanonize':
                im.canonize()
                r = c14.Physics(c14.cell(im)).schmidt(0)
            elif k == 'itruncate':
                im.truncate(1e-9, 3)
                r = c14.Physics(c14.cell(im)).schmidt(0)
            elif k == 'ihams':
                mpo = L.H.TFI(-np.ones(NI), 1.7 * np.ones(NI), False)
                c = im.copy()
                x = L.mf.getBoundaryHams(c, mpo, regauge=True)
                r = [x[4], x[5]]
            elif k == 'vumps':
                e = L.en.VUMPSengine(c15.imps(L, [L.np.random.random_sample((3, 3, 2)) - 0.3]), L.H.TFI(-np.ones(1), 1.7 * np.ones(1), False), 'v')
                r = e.simulate(Nmax=4, epsilon=1e-12, tol=1e-12, lgmrestol=1e-12, ncv=9, numeig=3, artol=1e-12, arncv=12, solver='LAN', svd=s['s'] % 2 == 0, checkpoint=0)
            elif k == 'grad':
                e = L.en.HomogeneousIMPSengine(4, L.np.random.random_sample((3, 3, 2)) - 0.3, L.H.TFI(-np.ones(1), 1.7 * np.ones(1), False)[0], 'g', alpha=.05, alphas=[.1, .2], normgrads=[1e-3, 1e-5], dtype=float)
                e.simulate(checkpoint=100)
                r = c14.Physics([e._mps]).schmidt(0)
            elif k == 'idmrg':
                e = L.en.IDMRGengine(c15.imps(L, [L.np.random.random_sample((3, 3, 2)) - 0.3 for _ in range(2)], 'symmetric'), L.H.TFI(-np.ones(2), 1.7 * np.ones(2), False), 'i')
                e.simulate(Nmax=3, NUC=1, Econv=1e-12, tol=1e-10, ncv=10, cp=None, verbose=verbose, solver='LAN', regaugestep=0)
                r = c14.Physics(c14.cell(e.mps)).schmidt(0)
        res = [] if r is None else pack(r)
        if k in BITWISE:
            res += pack(m)
        # the state of the generator: how many random numbers were drawn
        g = L.np.random.get_state()
        res.append(np.array([int.from_bytes(hashlib.blake2b(np.array(g[1]).tobytes() + str(g[2:]).encode(), digest_size=6).digest(), 'big')]))
        out.append((k, [(str(x.dtype), x.shape, x.tobytes()) for x in res]))
    return out


def arrays(res):
    return [np.frombuffer(b, dtype=t).reshape(s) for t, s, b in res]


def run(case, ctx):
    from .. import fresh
    boot.lib()
    S = fresh.pair()
    base = ctx.scratch()
    reqs = [{'module': 'c17', 'case': case, 'noise': False, 'verbose': 0, 'clock': [0, 1.0], 'cwd': os.path.join(base, 'a'), 'env': {}, 'pyseed': 1},
            {'module': 'c17', 'case': case, 'noise': True, 'verbose': case['verbose'], 'clock': case['clock'], 'cwd': os.path.join(base, 'another directory', 'with a longer name'), 'env': {'PWD': '/', 'TMPDIR': base}, 'pyseed': case['pyseed']}]
    for s, r in zip(S, reqs):
        s.send(r)
    A, B = [s.recv() for s in S]
    for n, x in zip('AB', (A, B)):
        if x[0] == 'died':
            raise HarnessError('process %s %s' % (n, x[1]))
        if x[0] == 'error' and '/sim/' in x[2].rstrip().split('  File ')[-1]:
            raise HarnessError('process %s: %s' % (n, x[2]))
    if A[0] == 'error' and B[0] == 'error':
        need(A[1] == B[1], 'outcome', 'one process: %s, other process: %s' % (A[1], B[1]))
        ctx.count('both ended with ' + A[1][:40])
        return
    need(A[0] == 'ok' and B[0] == 'ok', 'outcome', 'one process: %s, other process: %s' % (A[:2] if A[0] != 'ok' else 'ok', B[:3] if B[0] != 'ok' else 'ok'))
    need([k for k, _ in A[1]] == [k for k, _ in B[1]], 'outcome', 'different steps')
    for i, ((k, a), (_, b)) in enumerate(zip(A[1], B[1])):
        if k in BITWISE:
            if a != b:
                xa, xb = arrays(a), arrays(b)
                n = [j for j in range(min(len(a), len(b))) if a[j] != b[j]]
                dv = max([float(np.max(np.abs(np.asarray(xa[j], dtype=complex) - xb[j]))) if xa[j].shape == xb[j].shape and xa[j].size else -1.0 for j in n] or [-1.0])
                need(False, 'not reproducible', 'step %d (%s): %d of %d results differ between the two processes, by up to %.3g' % (i, k, len(n), len(a), dv))
        else:
            xa, xb = arrays(a), arrays(b)
            for p, q in list(zip(xa, xb))[:-1]:
                p, q = np.asarray(p, dtype=complex), np.asarray(q, dtype=complex)
                tol = 1e-6
                need(p.shape == q.shape and dense.norm(p - q) <= tol * max(1.0, dense.norm(p)), 'not reproducible', 'step %d (%s): %s in one process, %s in the other' % (i, k, p.ravel()[:5], q.ravel()[:5]))
            need(a[-1] == b[-1], 'random numbers', 'step %d (%s): the two processes drew different amounts of random numbers' % (i, k))
        ctx.count('step:' + k)
        if a == b:
            ctx.count('bitwise equal')
        ctx.state(k, i, len(case['noise']), case['verbose'])
    ctx.count('programs after other work', 1 if case['noise'] else 0)
    ctx.fault('clock offset or rate', 1 if case['clock'] != [0, 1.0] else 0)
    ctx.fault('different process environment')
    ctx.simtime += len(case['steps'])
    ctx.log([s['k'] for s in case['steps']])
    ctx.nontrivial = len(case['steps']) > 1


def simplify(case):
    for key, val in (('verbose', 0), ('clock', [0, 1.0]), ('cplx', False), ('D', 2), ('d', [2, 2, 2])):
        if case[key] != val:
            c = copy.deepcopy(case)
            c[key] = val
            yield c
