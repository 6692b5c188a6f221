"""C08: regauging, measuring, copying and reading never change a finite state; gauge and values are right."""
import copy
import numpy as np
from .. import boot, dense, gen, hist
from ..core import Violation
from ..hist import need

PROP = 'C08'
LEVEL = 'exploration'
COUNTS = {'quick': 4000, 'thorough': 120000}
LISTS = ['ops', 'faults']
RULE = ('a case is a finite state (random, product, rank-deficient, real or complex, mixed local dimensions) and a seeded history of '
        'position / Schmidt / measure / overlap / copy / canonize / read operations with a seeded pattern of SVD failures; non-trivial if '
        'it has at least three operations that ran on a chain with a bond of dimension > 1')
REAL = ['lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.ncon', 'numpy/LAPACK between injected failures']
STUBS = ['np.linalg.svd raises LinAlgError at the planned calls', 'stdout']
STATE_MEASURE = 'distinct (operation, center position, bond dimension profile)'
TIMEUNIT = 'operations'
TOL = 1e-8

KINDS = ['position', 'position', 'position', 'positiont', 'schmidt', 'schmidt', 'local', 'local', 'list', 'list', 'corr', 'corr',
         'jw', 'dot', 'dotother', 'copy', 'read', 'canonize', 'melem', 'fourpt', 'mutcopy', 'weakgate', 'trunc']


def gen_op(rng):
    return {'op': rng.choice(KINDS), 'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 'z': round(rng.random(), 4),
            's': rng.randrange(1 << 30), 'c': rng.random() < 0.35}


def make(rng, tier):
    big = tier == 'thorough'
    d = gen.pick_dims(rng, 2, 9 if big else 8, 900 if big else 600)
    st = gen.state_spec(rng, d, rng.choice([2, 4, 8, 12]))
    ot = gen.state_spec(rng, d, 5)
    case = {'state': st, 'other': ot, 'npseed': rng.randrange(1 << 30),
            'thresh': rng.choice([None, None, None, 1e-13]),
            'scale': rng.choice([None, None, -1.6, 0.04, [0.6, -0.8], [-1.1, 0.7]]), 'oscale': rng.choice([None, -0.7, [0.3, 1.2]]),
            'ops': [gen_op(rng) for _ in range(rng.randint(3, 40 if big else 22))],
            'faults': hist.svd_faults(rng)}
    return gen.enlarge(rng, case, ('state', 'other'))


def run(case, ctx):
    L = boot.lib()
    N = len(case['state']['d'])
    d = case['state']['d']
    mps = gen.make_state(L, case['state'])
    other = gen.make_state(L, case['other'])
    for x, z in ((mps, case.get('scale')), (other, case.get('oscale'))):
        if z is not None:
            x *= complex(*z) if isinstance(z, list) else z
    if case.get('thresh'):
        mps._schmidt_thresh = case['thresh']
    hist.arm_svd(case['faults'])
    ref = dense.vec(mps)
    oref = dense.vec(other)
    nrm = dense.norm(ref)
    if not (1e-100 < nrm < 1e100):
        return
    nr2 = nrm ** 2
    dmax, obc, dt = mps.Dmax, mps.obc, mps.dtype
    done = 0
    for k, op in enumerate(case['ops']):
        what = 'op %d %s' % (k, op['op'])
        before = hist.bonds(mps)
        pos0 = mps.pos
        o = op['op']
        cplx = case['state']['cplx'] or op.get('c', False)
        site = hist.site_of(op['x'], N)
        bond = hist.bond_of(op['x'], N)
        if o in ('weakgate', 'trunc'):
            # prepares another state (whether correctly is C09's question): Schmidt values of every size, earlier cuts
            if o == 'trunc':
                mps.truncate([1e-7, 1e-5, 1e-3, 1e-12][op['s'] % 4], [None, None, 3][op['s'] // 4 % 3])
            elif N > 1:
                n = min(N - 2, site)
                k2 = d[n] * d[n + 1]
                a = gen.random_op(op['s'], k2, cplx)
                G = dense.expm(-[1e-2, 1e-4, 1e-5, 1e-6][op['s'] % 4] * (a + a.conj().T) / 2 * (1j if cplx else 1.0))
                mps.applyTwoSiteGate(G.reshape(d[n], d[n + 1], d[n], d[n + 1]), n)
            ref = dense.vec(mps)
            nrm = dense.norm(ref)
            if not 1e-100 < nrm < 1e100:
                return
            nr2 = nrm ** 2
            dt = mps.dtype
            hist.summarise(ctx, mps, o)
            ctx.count('op:' + o)
            continue
        if o == 'position':
            mps.position(bond)
            need(mps.pos == bond, 'position', '%s: center at %d, asked for %d' % (what, mps.pos, bond))
            hist.check_gauge(mps, what)
        elif o == 'positiont':
            mps.position(bond, schmidt_thresh=[1e-14, 1e-13, 1e-12][op['s'] % 3])
            need(mps.pos == bond, 'position', '%s: center at %d, asked for %d' % (what, mps.pos, bond))
            hist.check_gauge(mps, what)
        elif o == 'schmidt':
            s = np.sort(np.abs(np.asarray(mps.getSchmidt(bond))))[::-1]
            e = dense.schmidt(ref, bond) / nrm
            m = max(len(s), len(e))
            s = np.concatenate([s, np.zeros(m - len(s))])
            e = np.concatenate([e, np.zeros(m - len(e))])
            need(dense.norm(s - e) < 1e-7, 'schmidt', '%s: Schmidt values at bond %d are %s, expected %s' % (what, bond, s[:6], e[:6]))
            need(mps.pos == bond, 'position', '%s: center at %d after getSchmidt(%d)' % (what, mps.pos, bond))
        elif o == 'local':
            A = gen.random_op(op['s'], d[site], cplx)
            r = mps.measureLocal(A, site)
            e = dense.expect(ref, [(site, A)])
            need(hist.close_num(r, e, TOL, nr2 * dense.norm(A)), 'measureLocal', '%s: site %d gives %s, state vector gives %s' % (what, site, r, e))
            need(mps.pos == pos0, 'position', '%s: measureLocal moved the center from %d to %d' % (what, pos0, mps.pos))
        elif o == 'list':
            A = [gen.random_op(op['s'] + n, d[n], cplx) for n in range(N)]
            r = np.asarray(mps.measureList(A)).ravel()
            e = np.array([dense.expect(ref, [(n, A[n])]) for n in range(N)])
            need(len(r) == N and dense.norm(r - e) <= TOL * nr2 * 10, 'measureList', '%s: %s, state vector gives %s' % (what, r, e))
            need(mps.pos == pos0, 'position', '%s: measureList moved the center from %d to %d' % (what, pos0, mps.pos))
        elif o == 'corr':
            n = 1 + op['s'] % 3
            sites = sorted([hist.site_of(op[c], N) for c in 'xyz'][:n])
            A = [gen.random_op(op['s'] + i, d[s], cplx) for i, s in enumerate(sites)]
            r = mps.measure(A, sites)
            e = dense.expect(ref, list(zip(sites, A)))
            sc = np.prod([dense.norm(a) for a in A])
            need(hist.close_num(r, e, TOL, nr2 * sc), 'measure', '%s: sites %s give %s, state vector gives %s' % (what, sites, r, e))
        elif o == 'jw':
            n = 1 + op['s'] % 4
            sites = sorted([hist.site_of(op[c], N) for c in 'xyz'] + [(op['s'] // 7) % N])[:n]
            r_ = gen.rs(op['s'])
            P = [np.diag(r_.choice([-1.0, 1.0], x)) for x in d]
            A = [gen.random_op(op['s'] + 1 + i, d[s], cplx) for i, s in enumerate(sites)]
            r = mps.measure(A, sites, P)
            # every operator carries the string of all sites to its left
            T = []
            for m in range(sites[-1] + 1):
                M = np.eye(d[m])
                for a, s in zip(A, sites):
                    M = M.dot(a if s == m else P[m] if m < s else np.eye(d[m]))
                T.append((m, M))
            e = dense.expect(ref, T)
            need(hist.close_num(r, e, TOL, nr2 * np.prod([dense.norm(a) for a in A])), 'measure with strings',
                 '%s: sites %s give %s, state vector gives %s' % (what, sites, r, e))
        elif o == 'dot':
            r = mps.dot(mps)
            need(hist.close_num(r, nr2, TOL, nr2), 'norm', '%s: <psi|psi> is %s, expected %s' % (what, r, nr2))
            need(mps.pos == pos0, 'position', '%s: dot moved the center from %d to %d' % (what, pos0, mps.pos))
        elif o == 'dotother':
            op0 = other.pos
            if op['s'] % 3 == 0:
                other.position(hist.bond_of(op['y'], N))
                op0 = other.pos
            r = mps.dot(other)
            e = np.vdot(oref, ref)
            need(hist.close_num(r, e, TOL, nrm * dense.norm(oref)), 'overlap', '%s: %s, state vectors give %s' % (what, r, e))
            need(mps.pos == pos0 and other.pos == op0, 'position', '%s: overlap moved a center' % what)
            hist.check_state(other, oref, TOL, what + ' (other state)')
        elif o == 'copy':
            c = mps.copy()
            hist.check_state(c, ref, TOL, what + ' (copy)', 'copy')
            need((c.pos, list(c.D), c.Dmax, c.obc, c.dtype) == (mps.pos, list(mps.D), mps.Dmax, mps.obc, mps.dtype), 'copy',
                 '%s: copy has pos,D,Dmax,obc,dtype %s, original %s' % (what, (c.pos, c.D, c.Dmax, c.obc, c.dtype), (mps.pos, mps.D, mps.Dmax, mps.obc, mps.dtype)))
            if op['s'] % 2:
                mps = c
        elif o == 'mutcopy':
            c = copy.deepcopy(mps) if op['s'] % 2 else mps.copy()
            c.position(bond)
            c.applyOneSiteGate(gen.random_op(op['s'], d[site], cplx), site)
            need(mps.pos == pos0, 'copy', '%s: working on a copy moved the center of the original' % what)
        elif o == 'read':
            t = mps.tolist()
            for x in t:
                x *= 1.5
            need(len(mps) == N and mps.d == list(d) and mps.Dmax == dmax and mps.obc == obc and mps.dtype == dt, 'attributes',
                 '%s: len, d, Dmax, obc, dtype are %s' % (what, (len(mps), mps.d, mps.Dmax, mps.obc, mps.dtype)))
            need(len(list(iter(mps))) == N, 'attributes', what)
            mps.ortho(site, 1 if op['s'] % 2 else -1)
            if site in (mps.pos, mps.pos - 1):
                x = mps.tensor(site)
                x *= 2.0
        elif o == 'canonize':
            mps.canonize()
            G, lam = mps._gamma, mps._lambda
            need(len(lam) == N + 1, 'canonize', '%s: %d lambdas' % (what, len(lam)))
            for b in range(N + 1):
                s = np.sort(np.abs(np.asarray(lam[b])))[::-1]
                e = dense.schmidt(ref, b) / nrm
                m = max(len(s), len(e))
                dv = dense.norm(np.concatenate([s, np.zeros(m - len(s))]) - np.concatenate([e, np.zeros(m - len(e))]))
                need(dv < 1e-7, 'canonize', '%s: lambda at bond %d is %s, Schmidt values are %s' % (what, b, s[:6], e[:6]))
            if min(np.min(np.abs(x)) for x in lam) > 1e-5:
                v = dense.contract([np.tensordot(np.diag(lam[n]), G[n], ([1], [0])) for n in range(N)])
                need(dense.fidelity_dev(v, ref) < 1e-5, 'canonize', '%s: the Gamma-lambda form is another state (%.2e)' % (what, dense.fidelity_dev(v, ref)))
        elif o == 'melem':
            A = [gen.random_op(op['s'] + n, d[n], op.get('c', False)) for n in range(N)]
            op0 = other.pos
            r = np.asarray(mps.measureMatrixElementList(other, A)).ravel()
            e = np.array([np.vdot(oref, dense.apply_sites(ref, A[n], n)) for n in range(N)])
            need(len(r) == N and dense.norm(r - e) <= TOL * nrm * dense.norm(oref) * 10, 'matrix elements',
                 '%s: %s, state vectors give %s' % (what, r, e))
            need(mps.pos == pos0 and other.pos == op0, 'position', '%s: measuring moved a center' % what)
            hist.check_state(other, oref, TOL, what + ' (other state)')
        else:
            continue
        done += 1
        ref_now = hist.check_state(mps, ref, TOL, what)
        after = hist.bonds(mps)
        need(all(a <= b for a, b in zip(after, before)), 'bond dimension', '%s: bond dimensions grew from %s to %s' % (what, before, after))
        need(mps.Dmax == dmax and mps.obc == obc, 'attributes', '%s: Dmax/obc changed' % what)
        hist.summarise(ctx, mps, o)
        ctx.count('op:' + o)
    ctx.simtime += done
    hist.note_faults(ctx)
    ctx.nontrivial = done >= 3 and max(mps.D) > 1


def simplify(case):
    st = case['state']
    d = st['d']
    if len(d) > 2:
        for cut in sorted(set([max(2, len(d) // 2), len(d) - 1])):
            c = copy.deepcopy(case)
            c['state']['d'] = d[:cut]
            c['other']['d'] = d[:cut]
            yield c
    if st['D'] > 1:
        c = copy.deepcopy(case)
        c['state']['D'] = st['D'] // 2
        yield c
    if st['cplx']:
        c = copy.deepcopy(case)
        c['state']['cplx'] = False
        yield c
    for key in ('thresh', 'scale', 'oscale'):
        if case.get(key) is not None:
            c = copy.deepcopy(case)
            c[key] = None
            yield c
