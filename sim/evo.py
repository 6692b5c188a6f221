"""Time evolution: descriptions, engines, exact references."""
import numpy as np
from . import dense, gen

SOLVERS = ['LAN', 'SEXPMV', 'RK45', 'RK23', 'BDF', 'Radau', 'LSODA']


SOLVERS_W = ['LAN'] * 6 + ['SEXPMV'] * 3 + ['RK45'] * 3 + ['RK23'] + ['BDF']


RTOL = {'LAN': 1e-8, 'SEXPMV': 1e-8, 'RK45': 1e-8, 'RK23': 1e-5, 'BDF': 1e-5, 'Radau': 1e-6, 'LSODA': 1e-8}
# distance (up to a phase) between two evolutions of the same state that take the same steps
TOL = {'LAN': 1e-6, 'SEXPMV': 5e-6, 'RK45': 2e-6, 'RK23': 2e-3, 'BDF': 1e-2, 'Radau': 1e-2, 'LSODA': 1e-3}


def spec(rng, nmin=3, nmax=6, dmax=4, method=None, kinds=None, imag=None, cplx=None, dims=(2, 2, 2, 3), maxdim=250):
    d = gen.pick_dims(rng, nmin, nmax, maxdim, dims)
    N = len(d)
    st = gen.state_spec(rng, d, dmax)
    kind = rng.choice(kinds or ['generic', 'generic', 'xxz', 'tfi'])
    if any(x != 2 for x in d):
        kind = 'generic'
    h = gen.ham_spec(rng, N, cplx=cplx, kinds=[kind])
    if kind == 'generic':
        h['d'] = d
    else:
        h['cplx'] = False
    m = method or rng.choice(['tebd', 'tebd', 'tdvp'])
    return {'state': st, 'ham': h, 'method': m, 'solver': rng.choice(SOLVERS_W), 'krylov': rng.choice([6, 10, 20])}


def shorten(rng, sp):
    """restricts a description to at most four sites with local dimension two"""
    d = [2] * min(4, len(sp['state']['d']))
    sp['state']['d'] = d
    sp['ham']['N'] = len(d)
    if 'd' in sp['ham']:
        sp['ham']['d'] = d


def build(L, sp, filename='run', mps=None):
    """engine, initial MPS, Ham"""
    st = dict(sp['state'])
    if sp.get('realtime', True) or sp['ham']['cplx']:
        st['cplx'] = True
    if mps is None:
        mps = gen.make_state(L, st)
    mps.position(len(st['d']))
    mps.position(0)
    mps.resetZ()
    ham = gen.Ham(L, sp['ham'])
    cls = L.en.TimeEvolutionEngine
    eng = (cls.TEBD if sp['method'] == 'tebd' else cls.TDVP)(mps, ham.mpo, filename)
    return eng, mps, ham


def steps(eng, sp, dt, n, Dmax=None, thresh=1e-14, cp=None, keep_cp=False, verbose=0, method=None):
    """one call of the public interface"""
    m = method or sp['method']
    if m == 'tebd':
        return eng.doTEBD(dt=dt, numsteps=n, Dmax=Dmax if Dmax is not None else 10 ** 4, tr_thresh=thresh, verbose=verbose, cp=cp, keep_cp=keep_cp)
    return eng.doTDVP(dt=dt, numsteps=n, krylov_dim=sp['krylov'], cp=cp, keep_cp=keep_cp, verbose=verbose, solver=sp['solver'], rtol=RTOL[sp['solver']], atol=1e-12)


def cpfile(filename, method, k):
    return '%s_%s_cp%d.pickle' % (filename, method, k)


class DenseTEBD:
    """second-order Trotter evolution of a state vector, with the truncation rule of the gate application"""

    def __init__(self, ham, v):
        self.ham, self.v = ham, v / dense.norm(v)
        self.N = len(v.shape)
        self.tw = 0.0
        self.clear = True
        self._g = {}

    def gate(self, n, tau):
        key = (n, complex(tau))
        if key not in self._g:
            self._g[key] = dense.expm(tau * self.ham.term(n).T).T      # [in, out]
        return self._g[key]

    def one(self, n, tau, D, th):
        w = dense.apply_sites(self.v, self.gate(n, tau), n, 2)
        v, k, s = dense.truncate_bond(w, n + 1, D, th)
        if not dense.clear_cut(s, D, th):
            self.clear = False
        a, b = dense.norm(w), dense.norm(v)
        self.tw += a * a - b * b
        self.v = v / b

    def even(self, tau, D, th):
        for n in range(0, self.N - 1, 2):
            self.one(n, tau, D, th)

    def odd(self, tau, D, th, reverse=True):
        r = list(range(1, self.N - 1, 2))
        for n in (reversed(r) if reverse else r):
            self.one(n, tau, D, th)

    def run(self, dt, n, D=None, th=0.0):
        """n whole steps in one call without checkpoints"""
        if n < 1:
            return
        self.even(dt / 2, D, th)
        for k in range(n):
            self.odd(dt, D, th)
            self.even(dt if k < n - 1 else dt / 2, D, th)


def exact(ham, v, dt, n):
    """normalised exp(dt*H)^n v"""
    w = np.linalg.matrix_power(dense.expm(dt * ham.M.T), n).dot(v.ravel())
    return (w / np.linalg.norm(w)).reshape(v.shape)


DT_REAL = [-0.05j, -0.1j, -0.02j, 0.07j, -0.2j]
DT_IMAG = [-0.05, -0.02, 0.03, -0.1]


def dt_of(x):
    """JSON form [re, im] -> scalar, real if purely real"""
    return float(x[0]) if x[1] == 0 else complex(x[0], x[1])


def dt_json(z):
    z = complex(z)
    return [z.real, z.imag]


def ref_after(refs, dt, n, D, th, cp, it0):
    """runs all reference evolutions through one call of n TEBD steps with checkpoint interval cp"""
    for r in refs:
        r.call(dt, n, D, th, cp, it0)


class TEBDModel(DenseTEBD):
    """one call of doTEBD: a checkpoint step ends in two half steps"""

    def __init__(self, ham, v, reverse=True):
        DenseTEBD.__init__(self, ham, v)
        self.reverse = reverse

    def call(self, dt, n, D, th, cp=None, it0=0):
        if n < 1:
            return []
        states = []
        self.even(dt / 2, D, th)
        for k in range(n):
            self.odd(dt, D, th, self.reverse)
            it = it0 + k
            if cp is not None and it > 0 and it % cp == 0:
                self.even(dt / 2, D, th)
                states.append((it, self.v, self.tw))
                if k < n - 1:
                    self.even(dt / 2, D, th)
            else:
                self.even(dt if k < n - 1 else dt / 2, D, th)
        return states
