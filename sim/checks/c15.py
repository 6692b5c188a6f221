"""C15: infinite-system optimisers reach the same energy from anywhere and stay bounded."""
import copy, math, os, random
import numpy as np
from .. import boot, dense, gen, hist, disk
from ..hist import need
from ..numseam import SEAM
from .c14 import cell, Physics, ortho

PROP = 'C15'
LEVEL = 'exploration'
COUNTS = {'quick': 90, 'thorough': 9000}
LISTS = ['parts', 'faults']
MINLEN = {}
RULE = ('a case is a gapped homogeneous chain with known ground-state energy (transverse-field Ising at random couplings and in a random local basis, or gapped XXZ), a random start, an optimiser (VUMPS, one- or two-site '
        'infinite DMRG, gradient descent) with random solver settings, and a seeded history of partial runs with step limits, checkpoint restarts, engine save/load and transient solver failures, followed by a final run '
        'of bounded length; non-trivial if the final run was judged against the exact energy')
REAL = ['lib.mpslib.engines.VUMPSengine/IDMRGengine/HomogeneousIMPSengine', 'lib.mpslib.mpsfunctions (regauge, TMeigs, RENORMBLOCKHAMGMRES, getBoundaryHams)', 'lib.mpslib.Hamiltonians', 'lib.Lanczos', 'pickle, numpy.save',
        'ARPACK/LAPACK/lgmres between injected failures']
STUBS = ['eigs/lgmres/svd fail at planned calls; the ARPACK start vector is seeded', 'files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (optimiser, model, solver, data type, unit cell, bond dimension, event)'
TIMEUNIT = 'iterations'
ASSUMPTIONS = ['gradient descent starts from a real state with D=4 or a complex one with D=3 or 4 (real states with D=3 can be trapped in a symmetry sector)', 'models with a gap (Ising away from the transition, XXZ with anisotropy of three or more); in the ordered Ising phase VUMPS and DMRG may select either state']


def make(rng, tier):
    big = tier == 'thorough'
    x = rng.random()
    algo = 'vumps' if x < 0.5 else 'idmrg1' if x < 0.68 else 'idmrg2' if x < 0.88 else 'grad'
    c = {'algo': algo, 'cplx': rng.random() < 0.5, 'rot': rng.randrange(1 << 30) if rng.random() < 0.4 else None, 'solver': rng.choice(['AR', 'LAN']), 'svd': rng.random() < 0.6,
         'npseed': rng.randrange(1 << 30), 'v0': rng.randrange(1 << 30), 'parts': [], 'faults': [], 'N': 1, 'D': rng.choice([3, 4, 4, 5, 6] + ([8] if big else [])), 'cp': rng.choice([0, 1, 2, 7, 100]), 'NUC': 1, 'rg': 0, 'verbose': 0,
         'numeig': rng.choice([2, 3, 3, 4])}
    c['model'] = 'tfi'
    lam = round(rng.choice([rng.uniform(0.2, 0.6), rng.uniform(1.5, 3.5)]), 3)
    sc = round(rng.uniform(0.6, 1.6), 2)
    c['J'] = -sc
    c['B'] = round(sc * lam * rng.choice([1, 1, -1]), 4)
    if algo == 'grad':
        c.update(D=3 if c['cplx'] and rng.random() < 0.5 else 4, rot=None, model='tfi', J=-abs(c['J']), B=round(abs(c['J']) * rng.uniform(1.8, 3.0), 4) * rng.choice([1, -1]))
    if algo in ('idmrg1', 'idmrg2'):
        c.update(N=rng.choice([2, 2, 4]), D=rng.choice([4, 6, 8]), NUC=rng.choice([1, 1, 2]), rg=rng.choice([0, 0, 3, 10, 5]), verbose=rng.choice([0, 1]))
        if rng.random() < 0.3:
            c['model'] = 'xxz'
            c['J'] = rng.choice([3.0, 4.0, 6.0])
            c['D'] = 8
        elif rng.random() < 0.5:
            # couplings that vary within the unit cell, in the paramagnetic phase
            c['Js'] = [round(rng.uniform(0.3, 1.0) * rng.choice([1, -1]), 3) for _ in range(c['N'])]
            c['Bs'] = [round(rng.uniform(1.5, 2.6) * rng.choice([1, -1]), 3) for _ in range(c['N'])]
            c.update(J=-1.0, B=2.0, D=max(6, c['D']))
    if lam > 1 and rng.random() < 0.4 and c['model'] == 'tfi' and algo != 'grad' and 'Js' not in c:
        c['J'] = -c['J']
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        c['parts'].append({'n': rng.choice([1, 2, 3, 5, 8, 13]), 'cp': rng.choice([1, 1, 2, 3]), 'how': rng.choice(['continue', 'checkpoint', 'engine', 'state'])})
    if rng.random() < 0.4:
        kinds = {'vumps': [('eigs', 'complex'), ('eigs', 'ArpackError'), ('lgmres', 'breakdown'), ('svd', 'LinAlgError')], 'grad': [('eigs', 'complex'), ('eigs', 'ArpackError'), ('lgmres', 'breakdown'), ('svd', 'LinAlgError')],
                 'idmrg1': [('lgmres', 'breakdown')], 'idmrg2': [('lgmres', 'breakdown')]}[algo]
        for name, f in kinds:
            n = rng.randrange(12)
            for _ in range(rng.randint(0, 6)):
                c['faults'].append([name, n, f])
                n += rng.randint(3, 25)
    c['twin'] = not c['parts'] and rng.random() < 0.4
    return c


def exact(c):
    if c['model'] == 'xxz':
        phi = math.acosh(c['J'])
        s = sum(1.0 / (1.0 + math.exp(2 * n * phi)) for n in range(1, 60))
        return c['J'] / 4.0 - math.sinh(phi) * (0.5 + 2 * s)
    if 'Js' in c:
        # free fermions with a unit cell: the energy is minus the sum of the singular values of the hopping matrix
        N, e = c['N'], []
        for k in 2 * np.pi * (np.arange(400) + 0.5) / 400:
            m = np.diag(c['Bs']).astype(complex)
            for i in range(N):
                m[i, (i + 1) % N] += c['Js'][i] * (np.exp(1j * k) if i == N - 1 else 1)
            e.append(np.sum(np.linalg.svd(m, compute_uv=False)))
        return float(-np.mean(e) / N)
    k = (np.arange(4000) + 0.5) / 4000 * np.pi
    J, B = c['J'], c['B']
    return float(-np.mean(np.sqrt(J * J + B * B + 2 * J * B * np.cos(k))))


def rotation(c, d=2):
    if c['rot'] is None:
        return None
    r = gen.rs(c['rot'])
    return np.linalg.qr(r.standard_normal((d, d)) + 1j * r.standard_normal((d, d)))[0]


def hamiltonian(L, c):
    N = c['N']
    if c['model'] == 'xxz':
        mpo = L.H.XXZ(c['J'] * np.ones(N), np.ones(N), np.zeros(N), obc=False)
    else:
        mpo = L.H.TFI(np.array(c.get('Js', [c['J']] * N)), np.array(c.get('Bs', [c['B']] * N)), obc=False)
    U = rotation(c)
    if U is None:
        return mpo
    ts = []
    for w in mpo:
        t = np.zeros(w.shape, dtype=complex)
        for a in range(w.shape[0]):
            for b in range(w.shape[1]):
                t[a, b] = U.dot(w[a, b]).dot(np.conj(U).T)
        ts.append(t)
    return L.H.MPO.fromlist(ts)


def energy(ts, c, shift=0):
    """energy per site, from the textbook Hamiltonian and the dense transfer matrix"""
    ref = Physics(ts)
    sz = np.diag([-0.5, 0.5])
    sp = np.array([[0.0, 0], [1, 0]])
    U = rotation(c)
    if U is not None:
        sz, sp = (U.dot(x).dot(np.conj(U).T) for x in (sz, sp))
    sm = np.conj(sp).T
    e = 0
    N = len(ts)
    for n in range(N):
        if c['model'] == 'xxz':
            e += c['J'] * ref.corr([n, n + 1], [sz, sz]) + 0.5 * (ref.corr([n, n + 1], [sp, sm]) + ref.corr([n, n + 1], [sm, sp]))
        else:
            i = (n + shift) % N
            e += c.get('Js', [c['J']] * N)[i] * ref.corr([n, n + 1], [sp + sm, sp + sm]) + c.get('Bs', [c['B']] * N)[i] * 2 * ref.corr([n], [sz])
    return e / N, ref


def start(L, c):
    r = gen.rs(c['npseed'])
    t = [r.standard_normal((c['D'], c['D'], 2)) + (1j * r.standard_normal((c['D'], c['D'], 2)) if c['cplx'] else 0) + 0.8 * r.random_sample((c['D'], c['D'], 2)) for _ in range(c['N'])]
    return t


def imps(L, ts, gauge='right'):
    m = L.MPS.fromList([np.array(t) for t in ts])
    # regauging a unit cell handles spurious eigenvalues, but reports errors of ARPACK
    plan = SEAM.plan
    SEAM.plan = dict((k, v if k != 'eigs' else dict((n, f) for n, f in v.items() if f == 'complex')) for k, v in plan.items())
    m.regauge(gauge=gauge)
    SEAM.plan = plan
    return m


class Driver:
    shift = 0

    def __init__(self, L, c, ctx):
        self.L, self.c, self.ctx = L, c, ctx
        self.mpo = hamiltonian(L, c)
        self.E0 = exact(c)
        self.sc = max(1.0, abs(c['J']), abs(c['B']))
        self.eng = self.new(start(L, c))

    def judge(self, what, tol=None):
        e, ref = energy(self.state(), self.c, self.shift)
        need(abs(e.imag) < 1e-8 * self.sc, 'energy', '%s: energy density %s' % (what, e))
        need(e.real > self.E0 - 1e-9 * self.sc, 'variational', '%s: energy density %.12g below the exact ground-state value %.12g' % (what, e.real, self.E0))
        if tol:
            need(e.real < self.E0 + tol * self.sc, 'energy', '%s: energy density %.10g, exact %.10g' % (what, e.real, self.E0))
        return e.real, ref


class Vumps(Driver):
    final = 80
    tol = 2e-6

    def new(self, ts):
        self.done = self.steps = self.calls = 0
        return self.L.en.VUMPSengine(imps(self.L, ts), self.mpo, 'run')

    def state(self):
        return [self.eng._A]

    def run(self, n, cp, what):
        c = self.c
        n0 = SEAM.counts.get('lgmres', 0)
        f0 = SEAM.fired.get('lgmres:breakdown', 0)
        e = self.eng.simulate(Nmax=self.done + n, epsilon=1e-8, tol=1e-12, lgmrestol=1e-12, ncv=30, numeig=min(c['numeig'], c['D'] ** 2 - 2), artol=1e-12, arncv=30, solver=c['solver'], svd=c['svd'], checkpoint=cp)
        k = (SEAM.counts['lgmres'] - n0 - (SEAM.fired.get('lgmres:breakdown', 0) - f0)) / 2.0
        self.done += n
        self.steps += k
        # the limit counts all steps of the engine, and a further call repeats the last step of the previous one
        need(1 <= k and self.steps <= self.done + self.calls, 'step limit', '%s: %s iterations, %s in total, at most %d asked for' % (what, k, self.steps, self.done))
        self.calls += 1
        self.ctx.simtime += k
        self.ctx.count('iterations', k)
        for t, left, s in ((self.eng._A, True, 'A'), (self.eng._B, False, 'B')):
            need(np.all(np.isfinite(t)) and ortho(t, left) < 1e-6, 'gauge', '%s: %s is not isometric (%.1e)' % (what, s, ortho(t, left)))
        return e

    def cpfiles(self):
        return 'CP_mpsrun.npy'

    def from_cp(self):
        a = np.load('CP_mpsrun.npy')
        return [a[0]]

    def judge_final(self, e, what):
        v, ref = self.judge(what, self.tol if self.c['D'] > 3 else 5e-5)
        need(abs(e - v) < 2e-5 * self.sc, 'reported energy', '%s: returned energy density %s, the state has %.12g' % (what, e, v))
        # mixed canonical form: A C = C B, up to the convergence of the run
        M = self.eng._mat
        a = np.tensordot(self.eng._A, M, ([1], [0])).transpose(0, 2, 1)
        b = np.tensordot(M, self.eng._B, ([1], [0]))
        z = np.vdot(a, b)
        need(abs(abs(z) - dense.norm(a) * dense.norm(b)) < 1e-5 * dense.norm(a) * dense.norm(b), 'canonical form', '%s: A C and C B differ' % what)
        eb, _ = energy([self.eng._B], self.c)
        need(abs(eb - v) < 1e-6 * self.sc, 'canonical form', '%s: energy of the left tensor %.12g, of the right tensor %.12g' % (what, v, eb.real))


class Idmrg(Driver):
    tol = 1e-5

    @property
    def final(self):
        return 60 if self.c['N'] == 2 else 40

    def new(self, ts):
        m = imps(self.L, ts, 'symmetric')
        m.Dmax = self.c['D']
        self.shift = 0
        return self.L.en.IDMRGengine(m, self.mpo, 'run')

    def state(self):
        return cell(self.eng.mps)

    def run(self, n, cp, what):
        c = self.c
        mf = self.L.mf
        real = mf.patchmpo
        calls = [0]

        def count(*a):
            calls[0] += 1
            return real(*a)
        mf.patchmpo = count
        try:
            kw = dict(Nmax=n, NUC=c['NUC'], Econv=1e-12, tol=1e-10, ncv=20, cp=cp or None, verbose=c['verbose'], solver=c['solver'], nmaxlan=200, landelta=1e-10, landeltaEta=1e-11, Ndiag=4, regaugestep=c['rg'])
            if c['algo'] == 'idmrg2':
                self.eng.simulateTwoSite(truncation=1e-10, **kw)
            else:
                self.eng.simulate(**kw)
        finally:
            mf.patchmpo = real
        need(calls[0] == 0 or calls[0] == n, 'step limit', '%s: %d outer iterations, %d asked for' % (what, calls[0], n))
        self.ctx.simtime += n
        self.ctx.count('iterations', n)
        # every iteration moves the cell by half its length
        self.shift = (self.shift + n * (c['N'] // 2)) % c['N']
        m = self.eng.mps
        need(max(m.D) <= c['D'], 'bond limit', '%s: bond dimensions %s, limit %d' % (what, m.D, c['D']))
        need(len(m) == c['N'] and all(np.all(np.isfinite(t)) for t in m.tensors), 'state', what)

    def cpfiles(self):
        return 'run_dmrg_cp.pickle'

    def from_cp(self):
        m = self.L.MPS.random(self.c['N'], 2, 2, False)
        m.load('run_dmrg_cp')
        return cell(m)

    def judge_final(self, e, what):
        self.judge(what, self.tol)


class Grad(Driver):
    final = 250
    tol = 5e-3

    def new(self, ts):
        r = self.L.np.random
        dt = complex if self.c['cplx'] else float
        return self.L.en.HomogeneousIMPSengine(1, ts[0], self.mpo[0], 'run', alpha=0.08 / self.sc, alphas=[0.12 / self.sc, 0.16 / self.sc], normgrads=[1e-2, 1e-4], dtype=dt)

    def state(self):
        return [np.array(self.eng._mps)]

    def run(self, n, cp, what):
        # the step limit belongs to the engine
        n0 = SEAM.counts.get('lgmres', 0)
        f0 = SEAM.fired.get('lgmres:breakdown', 0)
        self.eng._Nmax = self.eng._it + n - 1
        self.eng.simulate(checkpoint=cp or 10 ** 6)
        k = (SEAM.counts['lgmres'] - n0 - (SEAM.fired.get('lgmres:breakdown', 0) - f0)) / 2.0
        need(1 <= k <= n, 'step limit', '%s: %s iterations, at most %d asked for' % (what, k, n))
        self.ctx.simtime += k
        self.ctx.count('iterations', k)
        need(np.all(np.isfinite(self.eng._mps)), 'state', '%s: not finite' % what)

    def cpfiles(self):
        return 'CPTensorrun.npy'

    def from_cp(self):
        return [np.load('CPTensorrun.npy')]

    def judge_final(self, e, what):
        self.judge(what, self.tol)


DRIVER = {'vumps': Vumps, 'idmrg1': Idmrg, 'idmrg2': Idmrg, 'grad': Grad}


def run(case, ctx):
    L = boot.lib()
    c = case
    SEAM.v0rng.seed(c['v0'])
    L.np.random.seed(c['npseed'] % (1 << 32))
    SEAM.budget = 200000
    for name, n, f in c['faults']:
        SEAM.plan.setdefault(name, {})
        if name != 'svd' and name != 'eigs' or not any(abs(n - k) < 3 for k in SEAM.plan[name]):
            SEAM.plan[name][n] = f
    with disk.SimDisk(ctx.scratch()) as d:
        D = DRIVER[c['algo']](L, c, ctx)
        mpo0 = [np.array(w) for w in D.mpo]
        for i, p in enumerate(c['parts']):
            what = 'part %d' % i
            D.run(p['n'], p['cp'], what)
            D.judge(what)
            how = p['how']
            if how == 'checkpoint':
                if os.path.exists(D.cpfiles()):
                    D.eng = D.new(D.from_cp())
                else:
                    need(p['n'] <= p['cp'], 'checkpoint', '%s: no checkpoint after %d steps with checkpoint step %d' % (what, p['n'], p['cp']))
                    how = 'continue'
            elif how == 'engine':
                D.eng.save('saved')
                D.eng = L.en.Container().load('saved')
            elif how == 'state':
                D.eng = D.new(D.state())
            ctx.count('event:' + how)
            ctx.state(c['algo'], c['model'], c['solver'], c['cplx'], c['N'], c['D'], how, p['n'])
        e = D.run(D.final, c['cp'], 'final run')
        D.judge_final(e, 'final run (%d iterations)' % D.final)
        ctx.state(c['algo'], c['model'], c['solver'], c['cplx'], c['N'], c['D'], 'final', c['rg'])
        if c['twin'] and not c['parts']:
            # the same once more, without checkpoints and output
            a = D.state()
            c2 = dict(c, cp=0, verbose=0)
            fired = dict(SEAM.fired)
            plan = SEAM.plan
            SEAM.reset()
            SEAM.budget = 200000
            SEAM.plan = plan
            SEAM.v0rng.seed(c['v0'])
            L.np.random.seed(c['npseed'] % (1 << 32))
            D2 = DRIVER[c['algo']](L, c2, ctx)
            D2.run(D.final, 0, 'twin run')
            b = D2.state()
            need(len(a) == len(b) and all(x.shape == y.shape and np.max(np.abs(x - y)) < 1e-12 for x, y in zip(a, b)), 'checkpoints matter', 'the run with checkpoint step %s and verbosity %s ends in another state than without' % (c['cp'], c['verbose']))
            ctx.count('twin run')
            SEAM.fired = fired
        need(all(np.array_equal(a, b) for a, b in zip(mpo0, D.mpo)), 'Hamiltonian changed', 'the MPO was modified')
    ctx.count('algo:' + c['algo'])
    hist.note_faults(ctx)
    ctx.nontrivial = True


def simplify(case):
    for key, val in (('twin', False), ('rot', None), ('cplx', False), ('svd', False), ('solver', 'LAN'), ('rg', 0), ('NUC', 1), ('verbose', 0), ('cp', 0), ('D', 4), ('numeig', 3), ('N', 1 if case['algo'] in ('vumps', 'grad') else 2)):
        if case[key] != val and not (key == 'D' and case['D'] < 4):
            if case['algo'] == 'grad' and key == 'cplx' and case['D'] < 4:
                continue
            c = copy.deepcopy(case)
            c[key] = val
            yield c
    for i, p in enumerate(case['parts']):
        for key, val in (('n', 1), ('how', 'continue')):
            if p[key] != val:
                c = copy.deepcopy(case)
                c['parts'][i][key] = val
                yield c
