"""C14: regauging an infinite state preserves its physics and reaches the gauge it promises."""
import copy
import numpy as np
from .. import boot, dense, gen, hist
from ..hist import need
from ..numseam import SEAM

PROP = 'C14'
LEVEL = 'exploration'
COUNTS = {'quick': 800, 'thorough': 60000}
LISTS = ['ops', 'faults']
MINLEN = {'ops': 1}
RULE = ('a case is an infinite state (unit cell of one to four sites, mixed bond and local dimensions, real or complex, random, positive or with a wide Schmidt spectrum) and a seeded history of '
        'regauging, canonising, moving, truncating nothing, copying and measuring, with seeded spurious complex eigenvalues and ARPACK errors and random solver start vectors; non-trivial if the state is '
        'well conditioned (one dominant transfer eigenvalue, no tiny Schmidt value) and at least two operations ran')
REAL = ['lib.mpslib.mps.MPS (infinite)', 'lib.mpslib.mpsfunctions.regaugeIMPS/regauge/canonizeMPS/UnitcellTMeigs/TMeigs/getBoundaryHams', 'scipy ARPACK between injected failures']
STUBS = ['scipy eigs returns a spurious complex eigenvalue or raises ArpackError at planned calls; its start vector is seeded', 'stdout']
STATE_MEASURE = 'distinct (operation, unit-cell length, bond dimensions, center position, gauge)'
TIMEUNIT = 'operations'
ASSUMPTIONS = ['the bond between unit cells has dimension two or more (scipy ARPACK cannot handle smaller)', 'one dominant transfer eigenvalue, next one below 0.97 of it; smallest Schmidt value above 1e-3']
TOL = 1e-6
KINDS = ['left', 'right', 'symmetric', 'symmetric', 'left', 'right', 'position', 'position', 'position', 'canonize', 'truncate', 'copy', 'scale', 'measure', 'schmidt', 'single', 'list', 'hams', 'cut']


def make(rng, tier):
    big = tier == 'thorough'
    N = rng.choice([1, 1, 1, 2, 2, 3] + ([4, 5] if big else [4]))
    D = [rng.randint(2, 6)] * N if rng.random() < 0.6 else [rng.randint(2, 5) for _ in range(N)]
    d = [rng.choice([2, 2, 2, 3])] * N if rng.random() < 0.7 else [rng.choice([2, 3]) for _ in range(N)]
    st = {'D': D, 'd': d, 'cplx': rng.random() < 0.5, 'kind': rng.choice(['gauss', 'gauss', 'positive', 'wide', 'padded']), 'pad': rng.randint(1, 2), 'seed': rng.randrange(1 << 30)}
    ops = [{'op': rng.choice(KINDS), 'x': round(rng.random(), 4), 's': rng.randrange(1 << 30)} for _ in range(rng.randint(3, 24 if big else 14))]
    if st['kind'] == 'padded':
        ops.insert(0, {'op': 'truncate', 'x': 0.5, 's': 2 + 3 * rng.randrange(4)})
    faults = []
    if rng.random() < 0.5:
        n = rng.randrange(2)
        for _ in range(rng.randint(1, 8)):
            faults.append([n, 'complex'])
            n += rng.randint(2, 6)
    return {'state': st, 'ops': ops, 'faults': faults, 'v0': rng.randrange(1 << 30), 'npseed': rng.randrange(1 << 30), 'arpack': rng.random() < 0.5}


def build(L, st):
    r = gen.rs(st['seed'])
    N = len(st['D'])
    if st['kind'] == 'positive' and len(set(st['D'])) == 1 and len(set(st['d'])) == 1:
        L.np.random.seed(st['seed'] % (1 << 32))
        return L.MPS.random(N, st['D'][0], st['d'][0], False, dtype=complex if st['cplx'] else float)
    ts = []
    for n in range(N):
        a, b, d = st['D'][n], st['D'][(n + 1) % N], st['d'][n]
        t = r.standard_normal((a, b, d))
        if st['cplx']:
            t = t + 1j * r.standard_normal((a, b, d))
        if st['kind'] == 'wide':
            t = t * np.reshape(0.55 ** np.arange(a), (a, 1, 1)) * np.reshape(0.55 ** np.arange(b), (1, b, 1))
        ts.append(t)
    if st['kind'] == 'padded':
        # the bond between unit cells carries directions that no amplitude reaches, hidden by a random gauge
        k = st['pad']
        x = np.linalg.qr(r.standard_normal((st['D'][0] + k,) * 2))[0]
        t = ts[0]
        p = np.zeros((t.shape[0] + k,) + t.shape[1:], dtype=t.dtype)
        p[:t.shape[0]] = t
        ts[0] = np.tensordot(x.T, p, ([1], [0]))
        t = ts[-1]
        p = np.zeros((t.shape[0], t.shape[1] + k, t.shape[2]), dtype=t.dtype)
        p[:, :t.shape[1]] = t
        ts[-1] = np.transpose(np.tensordot(p, x, ([1], [0])), (0, 2, 1))
    return L.MPS.fromList(ts)


def cell(m):
    """the tensors of one unit cell, the center matrix and the connector included"""
    t = [np.array(x) for x in m.tensors]
    N = len(t)
    if m.pos < N:
        t[m.pos] = np.tensordot(m._mat, t[m.pos], ([1], [0]))
    else:
        t[N - 1] = np.transpose(np.tensordot(t[N - 1], m._mat, ([1], [0])), (0, 2, 1))
    t[N - 1] = np.transpose(np.tensordot(t[N - 1], m._connector, ([1], [0])), (0, 2, 1))
    return t


def layer(t, op=None):
    x = t if op is None else np.tensordot(t, op, ([2], [0]))
    m = np.transpose(np.tensordot(x, np.conj(t), ([2], [2])), (0, 2, 1, 3))
    return np.reshape(m, (t.shape[0] ** 2, t.shape[1] ** 2))


class Physics:
    """what an infinite state says about local operators, computed with the dense transfer matrix"""

    def __init__(self, ts):
        self.ts = ts
        N = self.N = len(ts)
        self.T = [layer(t) for t in ts]
        E = np.eye(self.T[0].shape[0])
        for x in self.T:
            E = E.dot(x)
        if not np.all(np.isfinite(E)):
            raise ValueError('not finite')
        w, v = np.linalg.eig(E)
        o = np.argsort(-np.abs(w))
        self.gap = float(np.abs(w[o[1]]) / np.abs(w[o[0]])) if len(w) > 1 else 0.0
        self.w = w[o[0]]
        w2, v2 = np.linalg.eig(E.T)
        l = v2[:, int(np.argmax(np.abs(w2)))]
        self.r = [None] * N + [v[:, o[0]]]
        self.l = [l] + [None] * N
        for n in range(N):
            x = self.l[n].dot(self.T[n])
            self.l[n + 1] = x / dense.norm(x)
        for n in range(N - 1, -1, -1):
            x = self.T[n].dot(self.r[n + 1])
            self.r[n] = x / dense.norm(x)

    def schmidt(self, n):
        D = self.ts[n].shape[0] if n < self.N else self.ts[-1].shape[1]
        a = np.reshape(self.l[n], (D, D))
        b = np.reshape(self.r[n], (D, D))
        w = np.linalg.eigvals(a.T.dot(b))
        w = np.abs(w)
        return np.sort(np.sqrt(w / np.sum(w)))[::-1]

    def corr(self, sites, ops):
        """expectation value of operators on increasing sites, which may lie in later unit cells"""
        N = self.N
        x = self.l[sites[0] % N]
        y = x
        k = 0
        for s in range(sites[0], sites[-1] + 1):
            n = s % N
            if k < len(sites) and sites[k] == s:
                x = x.dot(layer(self.ts[n], ops[k]))
                k += 1
            else:
                x = x.dot(self.T[n])
            y = y.dot(self.T[n])
            z = dense.norm(y)
            x, y = x / z, y / z
        n = (sites[-1] + 1) % N
        return x.dot(self.r[n]) / y.dot(self.r[n])

    def values(self, seed, cplx=True):
        out = []
        N = self.N
        A = [gen.random_op(seed + n, t.shape[2], cplx) for n, t in enumerate(self.ts)]
        B = [gen.random_op(seed + 50 + n, t.shape[2], cplx) for n, t in enumerate(self.ts)]
        for n in range(N):
            out.append(self.corr([n], [A[n]]))
            for m in (n + 1, n + N, n + N + 1):
                out.append(self.corr([n, m], [A[n], B[m % N]]))
        return np.array(out)


def ortho(t, left):
    if left:
        x = np.tensordot(t, np.conj(t), ([0, 2], [0, 2]))
    else:
        x = np.tensordot(t, np.conj(t), ([1, 2], [1, 2]))
    return dense.norm(x - np.eye(x.shape[0]))


def check_orth(m, what):
    for n in range(len(m)):
        e = ortho(m.tensors[n], n < m.pos)
        need(e < 1e-5, 'orthonormality', '%s: center at %d of %d, tensor %d is not %s-orthonormal (%.2e)' % (what, m.pos, len(m), n, 'left' if n < m.pos else 'right', e))


def check_schmidt(s, ref, n, what):
    s = np.sort(np.abs(np.asarray(s)))[::-1]
    e = ref.schmidt(n)
    k = max(len(s), len(e))
    s = np.concatenate([s, np.zeros(k - len(s))])
    e = np.concatenate([e, np.zeros(k - len(e))])
    need(dense.norm(s - e) < 1e-5, 'schmidt', '%s: Schmidt values at bond %d are %s, should be %s' % (what, n, s, e))


def run(case, ctx):
    L = boot.lib()
    st = case['state']
    m = build(L, st)
    ref = Physics(cell(m))
    N = len(m)
    ls = min(np.min(ref.schmidt(n)[:st['D'][n]]) for n in range(N))
    if ref.gap > 0.97 or ls < 1e-3:
        return
    SEAM.v0rng.seed(case['v0'])
    L.np.random.seed(case['npseed'] % (1 << 32))
    SEAM.plan['eigs'] = dict((n, f) for n, f in case['faults'])
    SEAM.budget = 4000
    vals = ref.values(7)
    scale = max(1.0, np.max(np.abs(vals)))
    gauge = None
    sym = False             # the center matrix is the Schmidt matrix of its bond
    done = 0
    for k, op in enumerate(case['ops']):
        o = op['op']
        if st['kind'] == 'padded' and k == 0:
            # without a threshold rank-deficient bonds are found only up to the solver's tolerance
            o, op = 'truncate', dict(op, s=op['s'] if o == 'truncate' and op['s'] % 3 == 2 else 2)
        what = 'op %d %s' % (k, o)
        bond = hist.bond_of(op['x'], N)
        site = hist.site_of(op['x'], N)
        if o in ('left', 'right', 'symmetric'):
            m.regauge(gauge=o)
            gauge, sym = o, o == 'symmetric'
            need(m.pos == (0 if o == 'right' else N), 'position', '%s: center at %d' % (what, m.pos))
            check_orth(m, what)
            M = np.asarray(m._mat)
            need(dense.norm(M - np.diag(np.diag(M))) < 1e-10 and abs(dense.norm(M) - 1) < 1e-8, 'center matrix', '%s: the center matrix is not diagonal and normalised' % what)
            need(dense.norm(M.dot(m._connector) - np.eye(len(M))) < 1e-6, 'connector', '%s: connector is not the inverse of the center matrix' % what)
            if sym:
                check_schmidt(np.diag(M), ref, N, what)
                x = M.dot(np.conj(M).T)
                y = x
                for t in m.tensors[::-1]:
                    y = np.tensordot(np.tensordot(t, y, ([1], [0])), np.conj(t), ([1, 2], [2, 1]))
                need(dense.norm(y - x) < 1e-5, 'canonical form', '%s: the squared Schmidt values are not a fixed point of the transfer operator (%.2e)' % (what, dense.norm(y - x)))
        elif o == 'position':
            if gauge is None:
                m.position(N)
            m.position(bond)
            need(m.pos == bond, 'position', '%s: center at %d, asked for %d' % (what, m.pos, bond))
            if gauge:
                check_orth(m, what)
        elif o == 'canonize':
            m.canonize()
            gauge, sym = 'symmetric', True
            G, lam = m._gamma, m._lambda
            need(len(G) == N and len(lam) == N + 1, 'canonize', '%s: %d gammas, %d lambdas' % (what, len(G), len(lam)))
            for n in range(N + 1):
                check_schmidt(lam[n], ref, n, what)
            ts = [np.tensordot(np.diag(lam[n]), G[n], ([1], [0])) for n in range(N)]
            for n in range(N):
                e = ortho(ts[n], True)
                need(e < 1e-4, 'canonize', '%s: lambda gamma at site %d is not left-orthonormal (%.2e)' % (what, n, e))
                e = ortho(np.transpose(np.tensordot(G[n], np.diag(lam[n + 1]), ([1], [0])), (0, 2, 1)), False)
                need(e < 1e-4, 'canonize', '%s: gamma lambda at site %d is not right-orthonormal (%.2e)' % (what, n, e))
            v = Physics(ts).values(7)
            need(dense.norm(v - vals) < 1e-4 * scale, 'canonize', '%s: the Gamma-lambda form gives %s, the state %s' % (what, v[:4], vals[:4]))
        elif o == 'truncate':
            th = [1e-12, 1e-10, 1e-9][op['s'] % 3]
            rg = [None, 'left', 'right', 'symmetric'][op['s'] // 3 % 4]
            m.truncate(th, None, rg)
            gauge, sym = rg or 'symmetric', rg in (None, 'symmetric')
            check_orth(m, what)
        elif o == 'cut':
            c = m.copy()
            D = 2 + op['s'] % 3
            if D > min(st['D']) or D > c.Dmax:
                continue
            c.truncate(1e-10, D, None)
            need(max(c.D) <= D, 'bond dimension', '%s: bond dimensions %s after truncation to %d' % (what, c.D, D))
            check_orth(c, what)
            p = Physics(cell(c))
            check_schmidt(np.diag(c._mat), p, N, what)
            w = sum(np.sum(ref.schmidt(n)[D:] ** 2) for n in range(N))
            v = p.values(7)
            need(dense.norm(v - vals) < 100 * (1e-7 + np.sqrt(w)) * scale * len(v) / (1 - ref.gap), 'truncation', '%s: discarding the weight %.1e changes the values by %.1e' % (what, w, dense.norm(v - vals)))
        elif o == 'copy':
            c = m.copy() if op['s'] % 2 else copy.deepcopy(m)
            need((c.pos, list(c.D), c.Dmax, c.obc, c.dtype) == (m.pos, list(m.D), m.Dmax, m.obc, m.dtype), 'copy', '%s: attributes differ' % what)
            if op['s'] % 4 < 2:
                m.regauge(gauge='left')
                m = c
            else:
                c.regauge(gauge='right')
        elif o == 'scale':
            m *= [2.0, -0.5, 1.7][op['s'] % 3]
        elif o == 'measure':
            if not sym:
                m.regauge(gauge='symmetric')
                gauge, sym = 'symmetric', True
            m.position(bond)
            sites = sorted([site, int(op['s'] % 1000 / 1000.0 * N)])
            if sites[0] == sites[1]:
                sites = sites[:1]
            A = [gen.random_op(op['s'] + i, st['d'][s], st['cplx']) for i, s in enumerate(sites)]
            m.resetZ()
            r = m.measure(A, sites)
            e = ref.corr(sites, A)
            need(abs(r - e) < TOL * 10 * max(1, abs(e)) * max(1.0, np.prod([dense.norm(a) for a in A])), 'measure', '%s: sites %s give %s, transfer matrix gives %s' % (what, sites, r, e))
        elif o == 'schmidt':
            if not sym:
                continue
            check_schmidt(m.getSchmidt(bond), ref, bond, what)
            need(m.pos == bond, 'position', '%s: center at %d after getSchmidt(%d)' % (what, m.pos, bond))
        elif o == 'single':
            if N > 1:
                continue
            t = cell(m)[0]
            t0 = np.array(t)
            g = ['left', 'right', 'symmetric'][op['s'] % 3]
            if case['arpack'] and t.shape[0] > 2:
                SEAM.plan['eigs'].setdefault(SEAM.counts.get('eigs', 0), ['ArpackError', 'complex'][op['s'] % 2])
            ne = min(6, t.shape[0] ** 2 - 2)
            out = L.mf.regauge(t, gauge=g, numeig=ne, initial=None)
            if g == 'symmetric':
                G, lam = out[0], out[1]
                need(abs(dense.norm(lam) - 1) < 1e-8, 'schmidt', '%s: Schmidt values of norm %s' % (what, dense.norm(lam)))
                check_schmidt(lam, ref, 0, what)
                a = np.tensordot(np.diag(lam), G, ([1], [0]))
                need(ortho(a, True) < 1e-4, 'orthonormality', '%s: not left-orthonormal (%.2e)' % (what, ortho(a, True)))
            else:
                a = out[0]
                need(ortho(a, g == 'left') < 1e-4, 'orthonormality', '%s: not %s-orthonormal (%.2e)' % (what, g, ortho(a, g == 'left')))
            v = Physics([a]).values(7)
            need(dense.norm(v - vals) < 1e-5 * scale, 'physics', '%s: %s gauge gives %s, the state %s' % (what, g, v[:4], vals[:4]))
        elif o == 'list':
            ts = cell(m)
            g = ['left', 'right', 'symmetric'][op['s'] % 3]
            lam = L.mf.regaugeIMPS(ts, gauge=g, truncate=1e-16)
            for n in range(N):
                e = ortho(ts[n], g != 'right')
                need(e < 1e-5, 'orthonormality', '%s: regaugeIMPS(%s): tensor %d (%.2e)' % (what, g, n, e))
            v = Physics(ts).values(7)
            need(dense.norm(v - vals) < 1e-5 * scale, 'physics', '%s: regaugeIMPS(%s) gives %s, the state %s' % (what, g, v[:4], vals[:4]))
            if g == 'symmetric':
                check_schmidt(np.diag(lam), ref, 0, what)
        elif o == 'hams':
            if set(st['d']) != {2} or N > 3:
                continue
            Jx, B = -np.ones(N), np.array([0.4, 0.9, 1.3][:N])
            mpo = L.H.TFI(Jx, B, obc=False)
            c = m.copy()
            # asks ARPACK for machine precision, which a retry with two eigenvalues may miss: no failure here
            faults, SEAM.plan = SEAM.plan, {}
            lb, rb, _, _, hl, hr = L.mf.getBoundaryHams(c, mpo, regauge=True)
            SEAM.plan = faults
            e = energy(ref, mpo, N)
            need(abs(hl - e) < 1e-5 and abs(hr - e) < 1e-5, 'energy', '%s: getBoundaryHams gives %s and %s, transfer matrix %s' % (what, hl, hr, e))
            v = Physics(cell(c)).values(7)
            need(dense.norm(v - vals) < TOL * scale, 'physics', '%s: getBoundaryHams changed the state: %s, before %s' % (what, v[:4], vals[:4]))
        done += 1
        now = Physics(cell(m))
        v = now.values(7)
        need(dense.norm(v - vals) < TOL * scale, 'physics', '%s: local values and correlations are %s..., were %s... (distance %.2e)' % (what, v[:4], vals[:4], dense.norm(v - vals)))
        need(len(m) == N and list(m.d) == list(st['d']) and m.obc is False, 'attributes', '%s: len, d, obc are %s' % (what, (len(m), m.d, m.obc)))
        need(m.D[0] == m.D[-1] and all(a <= b for a, b in zip(m.D, list(st['D']) + [st['D'][0]])), 'bond dimension', '%s: bond dimensions %s, were %s' % (what, m.D, st['D']))
        ctx.count('op:' + o)
        ctx.state(o, N, tuple(m.D), m.pos, gauge)
    ctx.simtime += done
    hist.note_faults(ctx)
    ctx.nontrivial = done >= 2


def energy(ref, mpo, N):
    """energy per unit cell of an MPO built by TFI: one-site part on every site and the bonds to the next site"""
    e = 0
    for n in range(N):
        w = mpo[n]
        e += ref.corr([n], [w[-1, 0]])
        nx = mpo[(n + 1) % N]
        for b in range(1, w.shape[1] - 1):
            e += ref.corr([n, n + 1], [w[-1, b], nx[b, 0]])
    return e


def simplify(case):
    st = case['state']
    if st['cplx']:
        c = copy.deepcopy(case)
        c['state']['cplx'] = False
        yield c
    if len(st['D']) > 1:
        for k in (1, len(st['D']) - 1):
            c = copy.deepcopy(case)
            c['state']['D'] = st['D'][:k]
            c['state']['d'] = st['d'][:k]
            yield c
    if any(x > 2 for x in st['D']):
        c = copy.deepcopy(case)
        c['state']['D'] = [2] * len(st['D'])
        yield c
    if any(x > 2 for x in st['d']):
        c = copy.deepcopy(case)
        c['state']['d'] = [2] * len(st['d'])
        yield c
    if case['arpack']:
        c = copy.deepcopy(case)
        c['arpack'] = False
        yield c
