"""Numerical back-end seam: counts calls, injects transient failures, gives ARPACK a seeded start vector."""
import sys
import numpy as np
import scipy.linalg, scipy.sparse.linalg, scipy.integrate
from .sched import guarded


class Liveness(BaseException):
    """more back-end calls than the case allows: the code under test makes no progress"""


class Seam:
    def __init__(self):
        self.v0rng = np.random.RandomState(12345)
        self.reset()

    def reset(self):
        self.counts = {}
        self.total = 0
        self.budget = None
        self.plan = {}          # name -> {call number: fault}
        self.fired = {}
        self.listeners = []     # called with (name) before every call
        self.v0rng.seed(12345)
        self.armed = True

    def enter(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        self.total += 1
        if self.budget is not None and self.total > self.budget:
            raise Liveness('more than %d back-end calls' % self.budget)
        for l in self.listeners:
            l(name)
        if not self.armed:
            return None
        p = self.plan.get(name)
        f = p.get(n) if p else None
        if f is not None:
            key = name + ':' + f
            self.fired[key] = self.fired.get(key, 0) + 1
        return f


SEAM = Seam()
ORIG = {}


def _raise(f, name):
    if f == 'LinAlgError':
        raise np.linalg.LinAlgError('SVD did not converge (injected)')
    if f == 'ArpackError':
        raise scipy.sparse.linalg.ArpackError(-9999)
    if f == 'ArpackNoConvergence':
        raise scipy.sparse.linalg.ArpackNoConvergence('injected', np.array([]), np.zeros((0, 0)))
    if f == 'MemoryError':
        raise MemoryError('injected')
    raise RuntimeError('injected ' + f)


def _plain(name, real):
    def f(*a, **k):
        fl = SEAM.enter(name)
        if fl:
            _raise(fl, name)
        return real(*a, **k) if name != 'eigsh' else guarded('ARPACK', real, *a, **k)
    f.__name__ = name
    f.__wrapped_real__ = real
    return f


def _eigs(real):
    def eigs(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
             return_eigenvectors=True, *a, **kw):
        fl = SEAM.enter('eigs')
        if fl and fl != 'complex':
            _raise(fl, 'eigs')
        if v0 is None:
            v0 = SEAM.v0rng.random_sample(A.shape[0]) - 0.3
        out = guarded('ARPACK', real, A, k, M, sigma, which, v0, ncv, maxiter, tol, return_eigenvectors, *a, **kw)
        if fl == 'complex':
            eta, vec = out
            return np.array(eta) * (1 + 0.7j), vec
        return out
    eigs.__wrapped_real__ = real
    return eigs


def _lgmres(real):
    def lgmres(A, b, x0=None, *a, **kw):
        fl = SEAM.enter('lgmres')
        out = real(A, b, x0, *a, **kw)
        if fl == 'breakdown':
            return np.array(out[0]) * 1.7 + 0.3, -1
        if fl:
            _raise(fl, 'lgmres')
        return out
    lgmres.__wrapped_real__ = real
    return lgmres


def install():
    if ORIG:
        return
    spl = scipy.sparse.linalg
    table = []

    def put(mod, attr, new):
        real = getattr(mod, attr)
        ORIG[(mod.__name__, attr)] = real
        setattr(mod, attr, new)
        table.append((real, new))
    put(np.linalg, 'svd', _plain('svd', np.linalg.svd))
    put(np.linalg, 'eigh', _plain('eigh', np.linalg.eigh))
    put(np.linalg, 'qr', _plain('qr', np.linalg.qr))
    put(scipy.linalg, 'expm', _plain('expm', scipy.linalg.expm))
    put(scipy.linalg, 'polar', _plain('polar', scipy.linalg.polar))
    put(spl, 'eigsh', _plain('eigsh', spl.eigsh))
    put(spl, 'lobpcg', _plain('lobpcg', spl.lobpcg))
    put(spl, 'eigs', _eigs(spl.eigs))
    put(spl, 'lgmres', _lgmres(spl.lgmres))
    put(scipy.integrate, 'solve_ivp', _plain('solve_ivp', scipy.integrate.solve_ivp))
    for name, mod in list(sys.modules.items()):
        if name == 'lib' or name.startswith('lib.'):
            for k, v in list(getattr(mod, '__dict__', {}).items()):
                for real, new in table:
                    if v is real:
                        setattr(mod, k, new)


def real_svd(*a, **k):
    return ORIG[('numpy.linalg', 'svd')](*a, **k)


def real_eigh(*a, **k):
    return (ORIG.get(('numpy.linalg', 'eigh')) or np.linalg.eigh)(*a, **k)
