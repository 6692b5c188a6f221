"""C13: sums, differences, multiples, conjugates, copies and in-place updates of states are those of the state vectors."""
import copy
import numpy as np
from .. import boot, dense, gen, hist
from ..hist import need

PROP = 'C13'
LEVEL = 'exploration'
COUNTS = {'quick': 2000, 'thorough': 130000}
LISTS = ['ops', 'faults', 'states']
MINLEN = {'states': 1}
RULE = ('a case is a pool of finite states and a seeded expression history (sum, difference, negation, real and complex multiples, conjugate, '
        'copy, in-place forms, MPO application, moves of the center, overlaps, reads) with a seeded pattern of SVD failures; non-trivial if at '
        'least two results were combined and compared')
REAL = ['lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.ncon', 'numpy/LAPACK between injected failures']
STUBS = ['np.linalg.svd raises LinAlgError at the planned calls', 'stdout']
STATE_MEASURE = 'distinct (operation, center position, bond dimension profile)'
TIMEUNIT = 'operations'
TOL = 1e-9
KINDS = ['add', 'add', 'add', 'sub', 'sub', 'neg', 'mul', 'mul', 'rmul', 'div', 'imul', 'idiv', 'iadd', 'isub', 'conjugate', 'conj', 'copy', 'position',
         'position', 'overlap', 'overlap', 'overlap', 'selfadd', 'mpo', 'truncate', 'gate', 'measure', 'schmidt', 'resetz', 'melem']


def gen_op(rng):
    return {'op': rng.choice(KINDS), 'i': rng.randrange(60), 'j': rng.randrange(60), 'x': round(rng.random(), 4), 's': rng.randrange(1 << 30),
            'num': rng.choice(['int', 'float', 'float', 'complex', 'npfloat', 'npcomplex', 'neg', 'imag'])}


def make(rng, tier):
    big = tier == 'thorough'
    d = gen.pick_dims(rng, 2, 7, 300)
    case = {'states': [gen.state_spec(rng, d, rng.choice([1, 2, 3, 4])) for _ in range(rng.randint(1, 4))], 'npseed': rng.randrange(1 << 30),
            'ops': [gen_op(rng) for _ in range(rng.randint(3, 40 if big else 24))], 'faults': hist.svd_faults(rng)}
    return gen.enlarge(rng, case, ('states',), 12)


def number(op):
    r = gen.rs(op['s'])
    k = op['num']
    a, b = float(r.uniform(0.3, 1.7)), float(r.uniform(-1.5, 1.5))
    return {'int': 2, 'float': a, 'complex': complex(a, b), 'npfloat': np.float64(a), 'npcomplex': np.complex128(complex(a, b)), 'neg': -a,
            'imag': 1j}[k]


class Reg:
    def __init__(self, mps, v, scale=None, canon=False):
        self.m, self.v = mps, v
        self.scale = scale if scale is not None else dense.norm(v)


def run(case, ctx):
    L = boot.lib()
    specs = case['states']
    d = specs[0]['d']
    N = len(d)
    hist.arm_svd(case['faults'])
    pool = []
    for s in specs:
        s = dict(s)
        s['d'] = d
        m = gen.make_state(L, s)
        v = dense.vec(m)
        n = dense.norm(v)
        if not 1e-60 < n < 1e60:
            continue
        if n > 1e3 or n < 1e-3:
            m.position(0)
            m.position(N)
            m.resetZ()
            v = dense.vec(m)
        pool.append(Reg(m, v))
    if not pool:
        return
    combined = 0

    def put(m, v, scale, what):
        need(type(m) is L.MPS, 'type', '%s: result is a %s' % (what, type(m).__name__))
        new = dense.vec(m)
        need(dense.close(new, v, TOL, scale), 'result', '%s: state vector deviates by %s' % (what, dense.dev(new, v)))
        need(len(m) == N and list(m.d) == list(d) and m.obc, 'result', '%s: length, dimensions or boundary condition' % what)
        need(m.D[0] == 1 and m.D[-1] == 1, 'result', '%s: outer bonds %s' % (what, m.D))
        n = dense.norm(v)
        if n < 1e-4 * scale or not 1e-6 < n < 1e6 or max(hist.bonds(m)) > 24:
            return None
        r = Reg(m, new, scale)
        if len(pool) < 6:
            pool.append(r)
        else:
            pool[1 + (len(pool) + combined) % 5] = r
        return r

    for k, op in enumerate(case['ops']):
        o = op['op']
        what = 'op %d %s' % (k, o)
        a, b = pool[op['i'] % len(pool)], pool[op['j'] % len(pool)]
        bond = hist.bond_of(op['x'], N)
        site = hist.site_of(op['x'], N)
        num = number(op)
        ab = a.scale + b.scale
        if o == 'add':
            put(a.m + b.m, a.v + b.v, ab, what)
            combined += 1
        elif o == 'selfadd':
            put(a.m + a.m, 2 * a.v, 2 * a.scale, what)
            combined += 1
        elif o == 'sub':
            put(a.m - b.m, a.v - b.v, ab, what)
            combined += 1
        elif o == 'neg':
            put(-a.m, -a.v, a.scale, what)
        elif o == 'mul':
            put(a.m * num, a.v * num, a.scale * abs(num), what)
        elif o == 'rmul':
            if isinstance(num, np.generic):
                num = num.item()
            put(num * a.m, a.v * num, a.scale * abs(num), what)
        elif o == 'div':
            put(a.m / num, a.v / num, a.scale / abs(num), what)
        elif o in ('imul', 'idiv'):
            old = a.m
            x = a.m
            if o == 'imul':
                x *= num
                nv = a.v * num
                need(x is old, 'in place', '%s: in-place multiplication returned another object' % what)
            else:
                x /= num
                nv = a.v / num
            n = dense.norm(nv)
            if x is not old:
                new = dense.vec(x)
                need(dense.close(new, nv, TOL, n), 'result', '%s: state vector deviates by %s' % (what, dense.dev(new, nv)))
            r = Reg(x, nv, a.scale * n / max(dense.norm(a.v), 1e-300))
            hist.check_state(x, nv, TOL, what, 'result')
            if 1e-6 < n < 1e6:
                pool[op['i'] % len(pool)] = r
            elif x is old:
                pool[op['i'] % len(pool)] = Reg(x / (num if o == 'imul' else 1 / num), a.v, a.scale)
        elif o in ('iadd', 'isub'):
            nv = a.v + b.v if o == 'iadd' else a.v - b.v
            if dense.norm(nv) < 1e-3 * ab or max(hist.bonds(a.m)) + max(hist.bonds(b.m)) > 24:
                continue
            bv = b.v
            x = a.m
            if o == 'iadd':
                x += b.m
                need(x is a.m, 'in place', '%s: in-place addition returned another object' % what)
            else:
                x -= b.m
            new = dense.vec(x)
            need(dense.close(new, nv, TOL, ab), 'result', '%s: state vector deviates by %s' % (what, dense.dev(new, nv)))
            if a is not b:
                hist.check_state(b.m, bv, TOL, what + ' (operand)', 'operand changed')
            pool[op['i'] % len(pool)] = Reg(x, new, ab)
            combined += 1
        elif o == 'conjugate':
            put(a.m.conjugate(), a.v.conj(), a.scale, what)
        elif o == 'conj':
            c = a.m.copy()
            c.conj()
            put(c, a.v.conj(), a.scale, what)
        elif o == 'copy':
            c = copy.deepcopy(a.m) if op['s'] % 2 else a.m.copy()
            put(c, a.v, a.scale, what)
        elif o == 'position':
            a.m.position(bond)
            need(a.m.pos == bond, 'position', '%s: center at %d, asked for %d' % (what, a.m.pos, bond))
        elif o == 'overlap':
            p = (a.m.pos, b.m.pos)
            r = a.m.dot(b.m) if op['s'] % 2 else L.mf.overlap(a.m, b.m)
            e = np.vdot(b.v, a.v)
            need(hist.close_num(r, e, TOL, a.scale * b.scale), 'overlap', '%s: overlap is %s, state vectors give %s' % (what, r, e))
            need((a.m.pos, b.m.pos) == p, 'position', '%s: overlap moved a center' % what)
            combined += 1
        elif o == 'mpo':
            r_ = gen.rs(op['s'])
            spec = {'kind': 'generic', 'N': N, 'cplx': op['s'] % 2 == 0, 'seed': op['s'], 'scale': 1.0, 'd': list(d)}
            H = gen.Ham(L, spec)
            c = a.m.copy()
            if max(hist.bonds(c)) * 5 > 24:
                continue
            c.applyMPO(H.mpo)
            nv = H.M.T.dot(a.v.ravel()).reshape(a.v.shape)
            put(c, nv, a.scale * np.linalg.norm(H.M, 2), what)
        elif o == 'truncate':
            # compress the sum without loss
            c = a.m.copy()
            c.truncate(1e-12)
            put(c, a.v, a.scale * 1.0, what + ' (compressed)')
        elif o == 'gate':
            A = gen.random_op(op['s'], d[site], False)
            c = a.m.copy()
            c.applyOneSiteGate(A, site)
            put(c, dense.apply_sites(a.v, A, site), a.scale * dense.norm(A), what)
        elif o == 'measure':
            # a result of arithmetic is not in canonical form before its first sweep
            a.m.position(0)
            a.m.position(N)
            A = gen.random_op(op['s'], d[site], False)
            r = a.m.measureLocal(A, site)
            e = dense.expect(a.v, [(site, A)])
            need(hist.close_num(r, e, TOL, a.scale ** 2 * dense.norm(A)), 'measureLocal', '%s: %s, state vector gives %s' % (what, r, e))
        elif o == 'melem':
            A = [gen.random_op(op['s'] + n, d[n], False) for n in range(N)]
            a.m.position(0)
            a.m.position(N)
            b.m.position(0)
            b.m.position(N)
            r = np.asarray(a.m.measureMatrixElementList(b.m, A)).ravel()
            e = np.array([np.vdot(b.v, dense.apply_sites(a.v, A[n], n)) for n in range(N)])
            need(len(r) == N and dense.norm(r - e) <= 10 * TOL * a.scale * b.scale, 'matrix elements', '%s: %s, state vectors give %s' % (what, r, e))
        elif o == 'schmidt':
            a.m.position(0)
            a.m.position(N)
            s = np.sort(np.abs(np.asarray(a.m.getSchmidt(bond))))[::-1]
            e = dense.schmidt(a.v, bond) / dense.norm(a.v)
            m = max(len(s), len(e))
            need(dense.norm(np.pad(s, (0, m - len(s))) - np.pad(e, (0, m - len(e)))) < 1e-7 * a.scale / dense.norm(a.v), 'schmidt',
                 '%s: %s, expected %s' % (what, s[:6], e[:6]))
        elif o == 'resetz':
            c = a.m.copy()
            c.position(0)
            c.position(N)
            c.resetZ()
            new = dense.vec(c)
            need(abs(dense.norm(new) - 1) < 1e-8, 'norm', '%s: norm %g' % (what, dense.norm(new)))
            dv = dense.fidelity_dev(new, a.v)
            need(dv < 1e-6 * max(1, a.scale / dense.norm(a.v)), 'result', '%s: another state (%.2e)' % (what, dv))
        # operands, and everything else in the pool, represent what they did before
        for q, reg in enumerate(pool):
            new = dense.vec(reg.m)
            need(dense.close(new, reg.v, TOL, reg.scale), 'operand changed', '%s: state %d of the pool deviates by %s' % (what, q, dense.dev(new, reg.v)))
        hist.summarise(ctx, a.m, o)
        ctx.count('op:' + o)
        ctx.simtime += 1
    hist.note_faults(ctx)
    ctx.nontrivial = combined >= 2


def simplify(case):
    d = case['states'][0]['d']
    if len(d) > 2:
        for cut in sorted(set([max(2, len(d) // 2), len(d) - 1])):
            c = copy.deepcopy(case)
            for s in c['states']:
                s['d'] = d[:cut]
            yield c
    for i, s in enumerate(case['states']):
        if s['D'] > 1:
            c = copy.deepcopy(case)
            c['states'][i]['D'] = s['D'] // 2
            yield c
        if s['cplx']:
            c = copy.deepcopy(case)
            c['states'][i]['cplx'] = False
            yield c
    for i, op in enumerate(case['ops']):
        if op['num'] != 'int':
            c = copy.deepcopy(case)
            c['ops'][i]['num'] = 'int'
            yield c
