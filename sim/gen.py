"""Generation of states, operators, Hamiltonians from JSON descriptions (all randomness from RandomState(seed))."""
import random
import numpy as np
from . import boot

EPS = 1e-16


class R:
    """small seeded generator with the part of numpy's interface used here (creating a RandomState costs milliseconds)"""

    def __init__(self, seed):
        self.r = random.Random(int(seed))

    def _fill(self, f, size):
        if size is None:
            return f()
        shape = (size,) if isinstance(size, int) else tuple(size)
        n = 1
        for x in shape:
            n *= x
        return np.array([f() for _ in range(n)], dtype=float).reshape(shape)

    def standard_normal(self, size=None):
        return self._fill(lambda: self.r.gauss(0.0, 1.0), size)

    def random_sample(self, size=None):
        return self._fill(self.r.random, size)

    def uniform(self, a, b, size=None):
        return self._fill(lambda: a + (b - a) * self.r.random(), size)

    def randint(self, a, b=None):
        if b is None:
            a, b = 0, a
        return self.r.randrange(a, b)

    def choice(self, seq, size=None):
        return self._fill(lambda: self.r.choice(seq), size)


def rs(seed):
    return R(seed)


def rmat(r, n, m, cplx):
    a = r.standard_normal((n, m))
    if cplx:
        a = a + 1j * r.standard_normal((n, m))
    return a


def random_herm(seed, d, cplx=False):
    a = rmat(rs(seed), d, d, cplx)
    return (a + a.conj().T) / 2


def random_op(seed, d, cplx=False):
    return rmat(rs(seed), d, d, cplx)


def pick_dims(rng, nmin, nmax, maxdim=700, ds=(2, 2, 2, 3)):
    N = rng.randint(nmin, nmax)
    while True:
        if rng.random() < 0.7:
            d = [rng.choice(ds)] * N
        else:
            d = [rng.choice(ds) for _ in range(N)]
        p = 1
        for x in d:
            p *= x
        if p <= maxdim:
            return d
        N = max(nmin, N - 1)
        ds = tuple(x for x in ds if x == 2) or ds


def state_spec(rng, d, dmax=8):
    """description of an open-boundary MPS"""
    kind = rng.choice(['random', 'random', 'random', 'product', 'list', 'deficient', 'ones'])
    return {'d': d, 'D': rng.randint(1, dmax), 'kind': kind, 'cplx': rng.random() < 0.5, 'seed': rng.randrange(1 << 30),
            'rank': rng.randint(1, 3)}


def enlarge(rng, case, keys, D=32, share=0.06):
    """turns a small share of the cases into long chains with large bond dimensions and few operations, another
    into chains with larger local dimensions"""
    x = rng.random()
    if x >= 2 * share:
        return case
    d = [2] * rng.choice([9, 10]) if x < share else [rng.choice([2, 3, 4, 5]) for _ in range(rng.randint(2, 4))]
    for k in keys:
        for st in case[k] if isinstance(case[k], list) else [case[k]]:
            st['d'] = d
            if x < share:
                st['D'] = rng.choice([D // 2, D - 7, D])
                st['kind'] = rng.choice(['random', 'list', 'list'])
    if x < share:
        case['ops'] = case['ops'][:8]
    return case


def make_state(L, spec):
    """builds the MPS; uses numpy's global generator only through MPS.random, seeded from the spec"""
    np_ = L.np
    d, D = spec['d'], spec['D']
    N = len(d)
    dt = complex if spec['cplx'] else float
    np_.random.seed(spec['seed'] % (1 << 32))
    r = rs(spec['seed'] + 17)
    k = spec['kind']
    if k == 'product':
        loc = []
        for x in d:
            v = rmat(r, 1, x, spec['cplx'])[0]
            if r.random_sample() < 0.5:
                v = np.zeros(x, dtype=dt)
                v[r.randint(x)] = 1.0
            loc.append(v.astype(dt))
        return L.MPS.productState(loc, obc=True, dtype=dt)
    if k == 'random':
        return L.MPS.random(N, D, d, True, dtype=dt)
    if k == 'ones':
        return L.MPS.ones(N, D, d, True, dtype=dt)
    bonds = [1] + [D] * (N - 1) + [1]
    # not more than the exact rank a bond can carry, now and then exceeded
    left = 1
    for n in range(N):
        left = min(10 ** 6, left * d[n])
        if n + 1 < N:
            right = 1
            for m in range(n + 1, N):
                right = min(10 ** 6, right * d[m])
            cap = min(left, right)
            bonds[n + 1] = min(bonds[n + 1], cap) if r.random_sample() < 0.8 else min(bonds[n + 1], cap + 2)
    tens = []
    for n in range(N):
        t = r.standard_normal((bonds[n], bonds[n + 1], d[n]))
        if spec['cplx']:
            t = t + 1j * r.standard_normal(t.shape)
        tens.append(t)
    if k == 'deficient':
        rank = spec['rank']
        for n in range(N - 1):
            b = bonds[n + 1]
            if b > rank:
                p = rmat(r, b, rank, spec['cplx']).dot(rmat(r, rank, b, spec['cplx']))
                tens[n] = np.transpose(np.tensordot(tens[n], p, ([1], [0])), (0, 2, 1))
    return L.MPS.fromList([t.astype(dt) for t in tens])


PAULI = {'x': np.array([[0, 1.], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]]), 'z': np.diag([1., -1])}


def ham_spec(rng, N, cplx=None, kinds=None):
    k = rng.choice(kinds or ['generic', 'generic', 'generic', 'xxz', 'tfi'])
    c = (rng.random() < 0.4) if cplx is None else cplx
    return {'kind': k, 'N': N, 'cplx': bool(c), 'seed': rng.randrange(1 << 30), 'scale': rng.choice([0.4, 1.0, 1.0, 1.5])}


_Generic = None


def generic_class(L):
    """an MPO derived from the base class as its documentation tells users to do"""
    global _Generic
    if _Generic is None:
        class GenericMPO(L.H.MPO):
            def __init__(self, mpos, dtype):
                self._obc = True
                self._dtype = np.dtype(dtype)
                self._N = len(mpos)
                self._mpo = [np.array(m) for m in mpos]
        GenericMPO.__module__ = 'sim.gen'
        GenericMPO.__qualname__ = 'GenericMPO'
        globals()['GenericMPO'] = GenericMPO
        _Generic = GenericMPO
    return _Generic


def assemble(L, onsite, bonds, dtype):
    """onsite: list of d x d operators; bonds: list (N-1) of lists of (opL, opR); operators are op[in, out]"""
    N = len(onsite)
    mpos = []
    d = [o.shape[0] for o in onsite]
    for n in range(N):
        nl = len(bonds[n - 1]) if n > 0 else 0
        nr = len(bonds[n]) if n < N - 1 else 0
        t = np.zeros((nl + 2, nr + 2, d[n], d[n]), dtype=dtype)
        one = np.eye(d[n])
        t[0, 0] = one
        t[-1, -1] = one
        t[-1, 0] = onsite[n]
        for k in range(nl):
            t[k + 1, 0] = bonds[n - 1][k][1]
        for k in range(nr):
            t[-1, k + 1] = bonds[n][k][0]
        if n == 0:
            t = t[-1:]
        if n == N - 1:
            t = t[:, :1]
        mpos.append(t)
    return generic_class(L)(mpos, dtype)


def build_ham(L, spec):
    """returns (mpo, dense matrix M[in,out], list of bond terms h[in,out])"""
    N = spec['N']
    r = rs(spec['seed'])
    sc = spec.get('scale', 1.0)
    if spec['kind'] == 'generic':
        real = not spec['cplx']
        dt = float if real else complex
        d = spec.get('d') or [2] * N
        onsite, bonds = [], []
        for n in range(N):
            a = rmat(r, d[n], d[n], not real)
            onsite.append(sc * 0.5 * (a + a.conj().T) / 2)
        for n in range(N - 1):
            terms = []
            for _ in range(r.randint(1, 3)):
                a = rmat(r, d[n], d[n], not real)
                b = rmat(r, d[n + 1], d[n + 1], not real)
                terms.append((sc * (a + a.conj().T) / 2, (b + b.conj().T) / 2))
            bonds.append(terms)
        mpo = assemble(L, onsite, bonds, dt)
        return mpo, onsite, bonds
    one = np.eye(2)
    if spec['kind'] == 'xxz':
        Jz = sc * r.uniform(-1, 1, N - 1)
        Jxy = sc * r.uniform(0.3, 1, N - 1) * r.choice([-1, 1], N - 1)
        B = sc * r.uniform(-1, 1, N)
        if spec.get('uniform'):
            Jz[:], Jxy[:], B[:] = Jz[0], Jxy[0], B[0]
        mpo = L.H.XXZ(Jz, Jxy, B, True)
        sp = np.array([[0, 1.], [0, 0]])
        sz = np.diag([-0.5, 0.5])
        onsite = [B[n] * sz for n in range(N)]
        bonds = [[(Jz[n] * sz, sz), (Jxy[n] / 2 * sp, sp.T), (Jxy[n] / 2 * sp.T, sp)] for n in range(N - 1)]
        return mpo, onsite, bonds
    if spec['kind'] == 'tfi':
        Jx = sc * r.uniform(-1, 1, N - 1)
        B = sc * r.uniform(-1, 1, N)
        mpo = L.H.TFI(Jx, B, True)
        onsite = [B[n] * np.diag([-1., 1.]) for n in range(N)]
        bonds = [[(Jx[n] * PAULI['x'], PAULI['x'])] for n in range(N - 1)]
        return mpo, onsite, bonds
    raise ValueError(spec['kind'])


class Ham:
    """a Hamiltonian three ways: MPO for the code under test, dense matrix and bond terms for the model"""

    def __init__(self, L, spec):
        self.spec = spec
        self.mpo, self.onsite, self.bonds = build_ham(L, spec)
        self.d = [o.shape[0] for o in self.onsite]
        self.N = len(self.d)
        self._M = None
        self._gs = None

    def term(self, n):
        """bond term with on-site terms shared half-half between neighbouring bonds; h[in, out]"""
        d1, d2 = self.d[n], self.d[n + 1]
        h = np.zeros((d1 * d2, d1 * d2), dtype=complex)
        for a, b in self.bonds[n]:
            h += np.kron(a, b)
        h += (1.0 if n == 0 else 0.5) * np.kron(self.onsite[n], np.eye(d2))
        h += (1.0 if n == self.N - 2 else 0.5) * np.kron(np.eye(d1), self.onsite[n + 1])
        return h

    @property
    def M(self):
        if self._M is None:
            dim = int(np.prod(self.d))
            M = np.zeros((dim, dim), dtype=complex)
            for n in range(self.N - 1):
                a = int(np.prod(self.d[:n])) if n else 1
                b = int(np.prod(self.d[n + 2:])) if n + 2 < self.N else 1
                M += np.kron(np.kron(np.eye(a), self.term(n)), np.eye(b))
            self._M = M
        return self._M

    @property
    def gs(self):
        """eigenvalues, ground state vector"""
        if self._gs is None:
            from .numseam import real_eigh
            w, v = real_eigh(self.M.T)
            self._gs = (w, v)
        return self._gs

    def energy(self, v):
        w = v.ravel()
        return np.vdot(w, self.M.T.dot(w)) / np.vdot(w, w)
