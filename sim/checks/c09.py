"""C09: gates and truncations do what the state vector says, within the limits, and account for the discarded weight."""
import copy
import numpy as np
from .. import boot, dense, gen, hist
from ..hist import need

PROP = 'C09'
LEVEL = 'exploration'
COUNTS = {'quick': 3600, 'thorough': 110000}
LISTS = ['ops', 'faults']
RULE = ('a case is a finite state and a seeded history of one- and two-site gates (unitary or not), truncations, truncating and plain moves '
        'of the center and observations, with a seeded pattern of SVD failures; non-trivial if at least one gate or truncation was checked '
        'on a chain with a bond of dimension > 1')
REAL = ['lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.ncon', 'numpy/LAPACK between injected failures']
STUBS = ['np.linalg.svd raises LinAlgError at the planned calls', 'stdout']
STATE_MEASURE = 'distinct (operation, center position, bond dimension profile)'
TIMEUNIT = 'operations'
TOL = 1e-8
KINDS = ['gate2'] * 8 + ['gate1'] * 3 + ['truncate', 'truncate', 'postrunc', 'postrunc', 'position', 'position', 'local', 'schmidt', 'measure',
                                      'resetz', 'copy']
THR = [1e-16, 1e-16, 1e-12, 1e-8, 1e-4, 1e-2, 0.05, 0.2]


def gen_op(rng):
    return {'op': rng.choice(KINDS), 'x': round(rng.random(), 4), 's': rng.randrange(1 << 30), 'D': rng.choice([None, None, 1, 2, 3, 4, 6, 9, 16]),
            'thresh': rng.choice(THR), 'how': rng.choice(['unitary', 'unitary', 'near', 'any', 'swap'])}


def make(rng, tier):
    big = tier == 'thorough'
    d = gen.pick_dims(rng, 2, 9 if big else 8, 900 if big else 600)
    case = {'state': gen.state_spec(rng, d, rng.choice([2, 4, 8, 12])), 'npseed': rng.randrange(1 << 30),
            'ops': [gen_op(rng) for _ in range(rng.randint(2, 40 if big else 20))], 'faults': hist.svd_faults(rng)}
    return gen.enlarge(rng, case, ('state',))


def gate_matrix(seed, how, d1, d2, cplx):
    """[in, out]"""
    k = d1 * d2
    a = gen.random_op(seed, k, cplx)
    if how == 'any':
        return a
    if how == 'swap' and d1 == d2:
        m = np.zeros((k, k))
        for i in range(d1):
            for j in range(d2):
                m[i * d2 + j, j * d1 + i] = 1.0
        return m
    h = (a + a.conj().T) / 2
    if how == 'near':
        return dense.expm(-0.3 * h)
    if cplx:
        return dense.expm(-1j * 0.7 * h)
    return dense.rqr(a)[0]


def sweep(v, bonds, D, thresh):
    """truncates a normalised vector at the given bonds, one after another; returns vector, clear, ok, lost"""
    clear, lost = True, 0.0
    for b in bonds:
        s = dense.schmidt(v, b)
        th = thresh if thresh > 1e-15 else 0.0
        if not dense.clear_cut(s, D, th):
            clear = False
        if th > 0 and s[0] <= th:
            return v, clear, False, lost
        v, k, s = dense.truncate_bond(v, b, D, th)
        n = dense.norm(v)
        if n < 1e-6:
            return v, clear, False, lost
        lost += 1 - n * n
        v = v / n
    return v, clear, True, lost


def run(case, ctx):
    L = boot.lib()
    d = case['state']['d']
    N = len(d)
    mps = gen.make_state(L, case['state'])
    cplx = case['state']['cplx']
    hist.arm_svd(case['faults'])
    ref = dense.vec(mps)
    if not 1e-60 < dense.norm(ref) < 1e60:
        return
    checked = 0
    dmax = mps.Dmax
    for k, op in enumerate(case['ops']):
        o = op['op']
        what = 'op %d %s' % (k, o)
        site = hist.site_of(op['x'], N)
        bond = hist.bond_of(op['x'], N)
        nrm = dense.norm(ref)
        if not 1e-60 < nrm < 1e60:
            break
        v = ref / nrm
        D, th = op['D'], op['thresh']
        pos0 = mps.pos
        if o == 'gate2':
            n = min(site, N - 2)
            G = gate_matrix(op['s'], op['how'], d[n], d[n + 1], cplx)
            g4 = G.reshape(d[n], d[n + 1], d[n], d[n + 1])
            keep = np.array(g4)
            w = dense.apply_sites(v, G, n, 2)
            s = dense.schmidt(w, n + 1)
            if s[0] <= th * 1.01 or s[0] < 1e-5:
                continue
            if D is None and th <= 1e-16 and op['s'] % 2:
                tw, Dn = mps.applyTwoSiteGate(g4, n)
            elif op['s'] % 3 == 0:
                tw, Dn = mps.applyTwoSiteGate(g4, n, Dmax=D, thresh=th)
            else:
                tw, Dn = mps.applyTwoSiteGate(g4, n, D, th)
            need(np.array_equal(g4, keep), 'gate changed', what)
            e, kept, s = dense.truncate_bond(w, n + 1, D, th)
            clear = dense.clear_cut(s, D, th)
            wn = dense.norm(w)
            exp_tw = wn ** 2 - dense.norm(e) ** 2
            if clear:
                need(abs(tw - exp_tw) <= 1e-9 * wn ** 2, 'weight', '%s: truncated weight %.12g returned, %.12g discarded (site %d, D %s, threshold %g)' % (
                    what, tw, exp_tw, n, D, th))
                e = e / dense.norm(e) * nrm
                ref = e
            else:
                need(tw >= -1e-12 and tw <= wn ** 2 * (1 + 1e-9), 'weight', '%s: truncated weight %g' % (what, tw))
                new = dense.vec(mps)
                need(abs(dense.norm(new) - nrm) <= 1e-7 * nrm, 'state', '%s: norm %g after the gate, %g before' % (what, dense.norm(new), nrm))
                # the part kept is a projection of the exact vector
                ov = abs(np.vdot(new / nrm, w)) ** 2
                need(abs(ov - (wn ** 2 - tw)) <= 1e-6 * wn ** 2, 'weight', '%s: weight %.9g returned, %.9g missing in the state' % (what, tw, wn ** 2 - ov))
                ref = new
                ctx.count('unclear cut')
            need(mps.pos == n + 1, 'position', '%s: center at %d' % (what, mps.pos))
            need(Dn == mps.D[n + 1] and (D is None or Dn <= D), 'limit', '%s: dimension %s returned, bond has %s, limit %s' % (what, Dn, mps.D[n + 1], D))
            if D is None and th <= 1e-16:
                need(tw <= 1e-14 * wn ** 2, 'weight', '%s: something discarded without limit or threshold: %g' % (what, tw))
            checked += 1
            hist.check_gauge(mps, what)
        elif o == 'gate1':
            A = gen.random_op(op['s'], d[site], cplx)
            if op['how'] == 'unitary' and cplx:
                A = dense.expm(1j * (A + A.conj().T) / 2)
            pp = op['s'] % 3
            if pp == 0:
                mps.applyOneSiteGate(A, site)
            else:
                mps.applyOneSiteGate(A, site, preserve_position=(pp == 1))
            ref = dense.apply_sites(ref, A, site)
            if pp == 2:
                # documented: canonical form is not preserved; bring it back
                new = dense.vec(mps)
                need(dense.close(new, ref, TOL), 'state', '%s: state vector deviates by %s' % (what, dense.dev(new, ref)))
                mps.position(0)
                mps.position(N)
            else:
                hist.check_gauge(mps, what)
            checked += 1
        elif o == 'truncate':
            if D is None and th <= 1e-15:
                continue
            skip = D is not None and D > dmax
            if skip:
                e, clear, ok, lost = v, True, True, 0.0
            else:
                e, clear, ok, lost = sweep(v, range(N - 1, 0, -1), D, th)
            if not ok:
                continue
            mps.truncate(th, D) if op['s'] % 2 else mps.truncate(schmidt_thresh=th, D=D)
            ref = compare(mps, e * nrm, clear, nrm, v, lost, what, ctx)
            if not skip and D is not None:
                need(max(mps.D) <= D, 'limit', '%s: bond dimensions %s, limit %d' % (what, mps.D, D))
            if not skip:
                hist.check_gauge(mps, what)
            checked += 1
        elif o == 'postrunc':
            if th <= 1e-15 and D is None:
                continue
            if bond > pos0:
                bs = [b for b in range(pos0 + 1, bond + 1) if b < N]
            else:
                bs = [b for b in range(pos0 - 1, bond - 1, -1) if b > 0]
            e, clear, ok, lost = sweep(v, bs, D, th)
            if not ok or th >= 1:
                continue
            if op['s'] % 2:
                mps.position(bond, th, D)
            else:
                mps.position(bond, schmidt_thresh=th, D=D)
            need(mps.pos == bond, 'position', '%s: center at %d, asked for %d' % (what, mps.pos, bond))
            ref = compare(mps, e * nrm, clear, nrm, v, lost, what, ctx)
            for b in bs:
                need(D is None or mps.D[b] <= D or b == bond and len(mps.getSchmidt(b)) <= max(D, 1), 'limit', '%s: bond %d has dimension %d, limit %s' % (what, b, mps.D[b], D))
            hist.check_gauge(mps, what)
            checked += 1
        elif o == 'position':
            mps.position(bond)
        elif o == 'local':
            A = gen.random_op(op['s'], d[site], cplx)
            r = mps.measureLocal(A, site)
            x = dense.expect(ref, [(site, A)])
            need(hist.close_num(r, x, TOL, nrm ** 2 * dense.norm(A)), 'measureLocal', '%s: %s, state vector gives %s' % (what, r, x))
        elif o == 'measure':
            s2 = (site + 1 + op['s'] % 3) % N
            sites = sorted([site, s2])
            A = [gen.random_op(op['s'] + i, d[q], cplx) for i, q in enumerate(sites)]
            r = mps.measure(A, sites)
            x = dense.expect(ref, list(zip(sites, A)))
            need(hist.close_num(r, x, TOL, nrm ** 2 * dense.norm(A[0]) * dense.norm(A[1])), 'measure', '%s: %s, state vector gives %s' % (what, r, x))
        elif o == 'schmidt':
            s = np.sort(np.abs(np.asarray(mps.getSchmidt(bond))))[::-1]
            e = dense.schmidt(ref, bond) / nrm
            m = max(len(s), len(e))
            need(dense.norm(np.pad(s, (0, m - len(s))) - np.pad(e, (0, m - len(e)))) < 1e-7, 'schmidt', '%s: %s, expected %s' % (what, s[:6], e[:6]))
        elif o == 'resetz':
            mps.resetZ()
            new = dense.vec(mps)
            need(abs(dense.norm(new) - 1) < 1e-8, 'norm', '%s: norm %g after resetZ' % (what, dense.norm(new)))
            x = np.vdot(ref, new)
            ref = ref / nrm * (x / abs(x) if abs(x) > 1e-8 else 1)
        elif o == 'copy':
            mps = mps.copy() if op['s'] % 2 else copy.deepcopy(mps)
        hist.check_state(mps, ref, TOL, what, 'state')
        # keep rounding out of the comparison: follow the state under test
        ref = dense.vec(mps)
        hist.summarise(ctx, mps, o)
        ctx.count('op:' + o)
        ctx.simtime += 1
    hist.note_faults(ctx)
    ctx.nontrivial = checked > 0 and case['state']['D'] > 1 and N > 1


def compare(mps, e, clear, nrm, v, lost, what, ctx):
    new = dense.vec(mps)
    if clear:
        need(dense.close(new, e, 1e-7), 'truncation', '%s: state vector deviates by %s' % (what, dense.dev(new, e)))
        return new
    ctx.count('unclear cut')
    need(abs(dense.norm(new) - nrm) <= 1e-7 * nrm, 'truncation', '%s: norm %g after, %g before' % (what, dense.norm(new), nrm))
    return new


def simplify(case):
    st = case['state']
    d = st['d']
    if len(d) > 2:
        for cut in sorted(set([max(2, len(d) // 2), len(d) - 1])):
            c = copy.deepcopy(case)
            c['state']['d'] = d[:cut]
            yield c
    if st['D'] > 1:
        c = copy.deepcopy(case)
        c['state']['D'] = st['D'] // 2
        yield c
    if st['cplx']:
        c = copy.deepcopy(case)
        c['state']['cplx'] = False
        yield c
    for i, op in enumerate(case['ops']):
        for key, val in (('D', None), ('thresh', 1e-16), ('how', 'unitary')):
            if op[key] != val:
                c = copy.deepcopy(case)
                c['ops'][i][key] = val
                yield c
