"""C07: simulations do not influence each other, nor the objects they were built from."""
import copy, os, itertools
import numpy as np
from .. import boot, dense, gen, hist, evo, disk, sched
from ..hist import need
from . import c11

PROP = 'C07'
NOJIT = True
LEVEL = 'exploration'
COUNTS = {'quick': 460, 'thorough': 24000}
LISTS = ['tasks', 'quanta', 'ops']
RULE = ('a case is either two to four simulations in threads under a seeded schedule of quanta (in executed source lines of the library; every switch is decided by the schedule) compared with the same '
        'simulations run alone, or a seeded history of operations on a pool of states, copies and engines after each of which every object not operated on must be unchanged; '
        'non-trivial if at least three switches happened inside library code or at least four operations were done')
REAL = ['lib.mpslib', 'lib.ncon', 'lib.Lanczos', 'lib.utils.fileio', 'pickle', 'threads (real, one running at a time)', 'ARPACK/LAPACK']
STUBS = ['thread scheduler', 'files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (function, line) where a switch happened, with the kinds of tasks; distinct (operation, object kind)'
TIMEUNIT = 'steps or operations'

TASKS = ['tebd', 'tebd', 'tdvp', 'tdvp', 'dmrg1', 'dmrg2', 'ops', 'ops', 'arith', 'ncon', 'saveload', 'vumps', 'shared', 'shared']


def task_spec(rng, kind=None):
    d = gen.pick_dims(rng, 2, 5, 40, (2, 2, 3))
    kind = kind or rng.choice(TASKS)
    if len(d) < 3 and kind in ('tdvp', 'dmrg1', 'dmrg2'):
        d = [2, 2, 2]
    N = len(d)
    h = gen.ham_spec(rng, N, kinds=['generic'] if rng.random() < 0.7 or any(x != 2 for x in d) else ['xxz', 'tfi'])
    if h['kind'] == 'generic':
        h['d'] = d
    else:
        h['cplx'] = False
    st = gen.state_spec(rng, d, 3)
    st['kind'] = rng.choice(['random', 'list', 'product'])
    return {'t': kind, 'state': st, 'ham': h, 'solver': rng.choice(['LAN', 'LAN', 'SEXPMV', 'RK45']), 'dsolver': rng.choice(['AR', 'LAN']), 'krylov': 6,
            'dt': evo.dt_json(rng.choice(evo.DT_REAL)), 'n': rng.choice([1, 1, 2]), 'D': rng.choice([None, 2, 3]), 'cp': rng.choice([None, 1, 1]), 's': rng.randrange(1 << 30)}


OPS = ['copy', 'copy', 'copy', 'deepcopy', 'neg', 'conj', 'mul', 'add', 'sub', 'fromlist', 'fromtensors', 'tensors', 'position', 'position', 'imul', 'idiv', 'iadd', 'gate1', 'gate2', 'gate2', 'truncate',
       'Dmax', 'resetZ', 'canonize', 'setitem', 'inplace', 'inplace', 'inplace', 'mutlist', 'tebd', 'tdvp', 'dmrg', 'step', 'step', 'save', 'measure', 'dot', 'schmidt', 'regauge', 'applympo', 'saveload', 'reset', 'getmps', 'step']


def make(rng, tier):
    c = {'npseed': rng.randrange(1 << 30), 'tasks': [], 'quanta': [], 'ops': []}
    if rng.random() < 0.5:
        n = rng.choice([2, 2, 3, 4])
        tasks = [task_spec(rng) for _ in range(n)]
        if rng.random() < 0.4:
            # the same program on different data, in lockstep
            k = rng.choice(['tebd', 'tdvp', 'dmrg1', 'dmrg2', 'ops', 'ncon', 'arith'])
            tasks = [task_spec(rng, k) for _ in range(n)]
            if rng.random() < 0.5:
                for t in tasks[1:]:
                    t['state']['d'] = tasks[0]['state']['d']
                    t['ham'] = dict(tasks[0]['ham'], seed=t['ham']['seed'])
        lo, hi = rng.choice([(1, 12), (1, 80), (5, 400), (100, 3000)])
        c['tasks'] = tasks
        c['quanta'] = [[round(rng.random(), 3), rng.randint(lo, hi)] for _ in range(rng.randint(3, 60 if tier == 'quick' else 200))]
        c['kind'] = 'threads'
        c['shared'] = task_spec(rng, 'tebd')
    else:
        c['kind'] = 'alias'
        N = rng.randint(3, 5)
        d = [rng.choice([2, 2, 3])] * N
        h = gen.ham_spec(rng, N, kinds=['generic'])
        h['d'] = d
        st = gen.state_spec(rng, d, 4)
        st['kind'] = rng.choice(['random', 'list', 'product', 'random'])
        c['state'], c['ham'] = st, h
        c['ops'] = [{'op': rng.choice(OPS), 'a': round(rng.random(), 4), 'b': round(rng.random(), 4), 'x': round(rng.random(), 4), 's': rng.randrange(1 << 30)} for _ in range(rng.randint(5, 22))]
    return c


# ---------------------------------------------------------------- threads

def prepare(L, t, seed):
    """random starts come from numpy's global generator, which threads would share: drawn beforehand"""
    np.random.seed(seed % (1 << 32))
    return gen.make_state(L, t['state']), gen.make_state(L, dict(t['state'], seed=t['s'], D=2))


def program(L, t, i, shared, start):
    """the work of one thread; returns a list of arrays and numbers"""
    first, second = start
    kind = t['t']
    d = t['state']['d']
    N = len(d)
    name = 'sim%d' % i
    out = []
    r = gen.rs(t['s'])
    if kind in ('tebd', 'tdvp', 'shared'):
        sp = {'state': t['state'], 'ham': t['ham'], 'method': 'tebd' if kind != 'tdvp' else 'tdvp', 'solver': t['solver'], 'krylov': t['krylov']}
        if kind == 'shared':
            # several simulations built from one state and one Hamiltonian
            mps, mpo = shared
            sp['method'] = 'tebd' if t['s'] % 2 else 'tdvp'
            cls = L.en.TimeEvolutionEngine
            eng = (cls.TEBD if sp['method'] == 'tebd' else cls.TDVP)(mps, mpo, name)
        else:
            eng, _, _ = evo.build(L, sp, name, first)
        for k in range(2):
            evo.steps(eng, sp, evo.dt_of(t['dt']), t['n'], t['D'], 1e-14, t['cp'], True)
            dd = eng.mps.d
            out.append(np.asarray(eng.measureLocal([np.diag(np.arange(1.0, x + 1)) for x in dd])))
        out += [dense.vec(eng.mps), eng.time, eng.iteration, eng.truncatedWeight, list(eng.mps.D)]
        for f in sorted(os.listdir('.')):
            if f.startswith(name) and f.endswith('.pickle'):
                out.append(f)
                e2 = L.en.Container().load(f[:-7])
                out.append(dense.vec(e2.mps))
    elif kind in ('dmrg1', 'dmrg2'):
        ham = gen.Ham(L, t['ham'])
        mps = first
        mps.position(N)
        mps.position(0)
        mps.resetZ()
        dm = L.en.DMRGengine(mps, ham.mpo, name)
        e = c11.sweep(dm, kind == 'dmrg2', t['dsolver'], 1, t['cp'], 0, econv=0.0)
        v = dense.vec(dm.mps)
        out += [float(np.real(e)), ham.energy(v).real, dense.norm(v)]
    elif kind == 'ops':
        mps = first
        for k in range(4):
            s = r.randint(N - 1)
            A = gen.random_op(t['s'] + k, d[s], k % 2 == 1)
            mps.applyOneSiteGate(A, s)
            G = gen.random_op(t['s'] + 7 + k, d[s] * d[s + 1]).reshape(d[s], d[s + 1], d[s], d[s + 1])
            out.append(np.asarray(mps.applyTwoSiteGate(G, s, Dmax=4)[0]).ravel()[:1])
            mps.position(r.randint(N + 1))
            out.append(np.asarray(mps.measureLocal(A, s)))
        c = mps.copy()
        c.truncate(1e-3, D=2)
        out += [dense.vec(mps), dense.vec(c), mps.dot(c)]
        out.append(np.asarray(mps.getSchmidt(N // 2)))
    elif kind == 'arith':
        a, b = first, second
        c = a * 2.0 - b
        c += b * 0.5
        c = -c
        out += [dense.vec(c), c.dot(a), a.dot(b), dense.vec(a), dense.vec(b)]
    elif kind == 'ncon':
        for k in range(3):
            x, y, z = [2 + r.randint(3) for _ in range(3)]
            A, B, C = gen.rmat(r, x, y * z, False).reshape(x, y, z), gen.rmat(r, y, z * x, True).reshape(y, z, x), gen.rmat(r, x, x, False)
            q = L.mf.ncon.ncon([A, B, C], [[-1, 1, 2], [1, 2, 3], [3, -2]])
            e = np.einsum('abc,bcd,de->ae', A, B, C)
            need(dense.close(q, e, 1e-10), 'contraction', 'ncon gives a wrong contraction')
            out.append(q)
    elif kind == 'saveload':
        a = first
        v = dense.vec(a)
        for k in range(3):
            a.save('state%d' % i)
            b = L.MPS.random(N, 2, d, True)
            b.load('state%d' % i)
            out.append(dense.vec(b))
            need(dense.close(out[-1], v, 1e-12), 'save and load', 'the loaded state differs from the saved one')
            a = b
    elif kind == 'vumps':
        D = 2
        mps = L.MPS.fromList([gen.rmat(r, D, D * 2, False).reshape(D, D, 2) for _ in range(1)])
        mpo = L.H.TFI(-np.ones(1), 2.0 * np.ones(1), False)
        mps.regauge(gauge='right')
        before = [np.array(x) for x in mps.tensors]
        vu = L.en.VUMPSengine(mps, mpo, name)
        vu.simulate(Nmax=3, epsilon=1e-8, tol=1e-12, lgmrestol=1e-12, ncv=30, numeig=2, artol=1e-12, arncv=30, solver='LAN', svd=True)
        for x, y in zip(before, mps.tensors):
            need(np.array_equal(x, np.asarray(y)), 'input changed', 'VUMPS modified the state it was given')
        out.append(1.0)
    return out


def equal(a, b, tol):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and (dense.norm(a - b) <= tol * max(1.0, dense.norm(b)))


def run_threads(case, ctx):
    L = boot.lib()
    tasks = case['tasks']
    if not tasks:
        return
    shared = None
    sham = None

    def make_shared():
        sp = {'state': case['shared']['state'], 'ham': case['shared']['ham'], 'method': 'tebd', 'solver': 'LAN', 'krylov': 6}
        _, mps, ham = evo.build(L, sp, 'x')
        return mps, ham
    solo = []
    with disk.SimDisk(ctx.scratch()):
        for i, t in enumerate(tasks):
            m, h = make_shared()
            solo.append(program(L, t, i, (m, h.mpo), prepare(L, t, case['npseed'] + i)))
    sm, sh = make_shared()
    fp, hp = fingerprint(sm), fingerprint_mpo(sh.mpo)
    with disk.SimDisk(ctx.scratch()):
        starts = [prepare(L, t, case['npseed'] + i) for i, t in enumerate(tasks)]
        s = sched.Sched([(lambda i=i, t=t: program(L, t, i, (sm, sh.mpo), starts[i])) for i, t in enumerate(tasks)], case['quanta'])
        s.run()
    for i, e in enumerate(s.error):
        if e is not None:
            if isinstance(e[0], sched.Stuck):
                raise e[0]
            from ..core import Violation, HarnessError
            if isinstance(e[0], Violation):
                raise e[0]
            need(False, 'thread failed', 'simulation %d (%s) ends in %s alongside %s; alone it does not\n%s' % (i, tasks[i]['t'], type(e[0]).__name__, [t['t'] for t in tasks], e[1][-1200:]))
    for i, t in enumerate(tasks):
        tol = 1e-7 if t['t'] not in ('dmrg1', 'dmrg2') else 1e-5
        if not equal(s.result[i], solo[i], tol):
            bad = [k for k, (x, y) in enumerate(zip(s.result[i], solo[i])) if not equal(x, y, tol)]
            need(False, 'interference', 'simulation %d (%s) gives other results alongside %s than alone: results number %s, %s instead of %s' % (
                i, t['t'], [u['t'] for u in tasks], bad, str(s.result[i][bad[0]] if bad else len(s.result[i]))[:200], str(solo[i][bad[0]] if bad else len(solo[i]))[:200]))
        ctx.count('task:' + t['t'])
    need(fingerprint(sm) == fp, 'input changed', 'a time evolution modified the state it was given')
    need(fingerprint_mpo(sh.mpo) == hp, 'input changed', 'a simulation modified the Hamiltonian it was given')
    for x in s.trail:
        ctx.state(x)
    ctx.log(s.switches, s.lines, s.trail[:50])
    ctx.fault('switch', s.switches)
    ctx.count('lines', s.lines)
    ctx.simtime += sum(t['n'] for t in tasks)
    ctx.nontrivial = s.switches >= 3 + len(tasks)


def fingerprint(m):
    return (m.pos, list(m.D), m.Dmax, complex(m._Z), [np.asarray(t).tobytes() for t in m.tensors], [np.asarray(x).tobytes() for x in (m._mat, m._connector)])


def fingerprint_mpo(h):
    return [np.asarray(h[n]).tobytes() for n in range(len(h))]


# ---------------------------------------------------------------- aliasing

class Obj:
    def __init__(self, m, kind, engine=None):
        self.m, self.kind, self.engine = m, kind, engine
        self.note()

    def mps(self):
        return self.engine.mps if self.engine is not None else self.m

    def note(self):
        m = self.mps()
        self.v = dense.vec(m)
        self.attr = (m.pos, list(m.D), m.Dmax, m.obc)


def run_alias(case, ctx):
    L = boot.lib()
    d = case['state']['d']
    N = len(d)
    ham = gen.Ham(L, case['ham'])
    h0 = fingerprint_mpo(ham.mpo)
    pool = [Obj(gen.make_state(L, case['state']), 'original')]
    done = 0
    with disk.SimDisk(ctx.scratch()):
        for k, op in enumerate(case['ops']):
            o = op['op']
            ia = min(len(pool) - 1, int(op['a'] * len(pool)))
            A, B = pool[ia], pool[min(len(pool) - 1, int(op['b'] * len(pool)))]
            a, b = A.mps(), B.mps()
            site, bond = hist.site_of(op['x'], N), hist.bond_of(op['x'], N)
            changed = {ia}          # objects allowed to change
            new = None
            s = op['s']
            what = 'op %d %s on object %d (%s)' % (k, o, ia, A.kind)
            same_state = o in ('position', 'schmidt', 'measure', 'dot', 'canonize', 'regauge', 'save')
            if o == 'copy':
                new = a.copy()
            elif o == 'deepcopy':
                new = copy.deepcopy(a)
            elif o == 'neg':
                new = -a
            elif o == 'conj':
                new = (a.conj() if s % 2 else a.conjugate()) or None
            elif o == 'mul':
                new = a * [1.5, -0.7, 1j, 0.8 - 0.6j][s // 2 % 4] if s % 2 else 0.5 * a
            elif o in ('add', 'sub'):
                if max(a.D) + max(b.D) > 12:
                    continue
                new = a + b if o == 'add' else a - b
            elif o == 'fromlist':
                new = L.MPS.fromList(a.tolist())
            elif o == 'fromtensors':
                src = [np.array(t) for t in a.tolist()]
                keep = [t.copy() for t in src]
                m = L.MPS(src) if s % 2 else L.MPS.fromList(src)
                m.position(bond)
                m.applyOneSiteGate(gen.random_op(s, d[site]), site)
                m *= 2.0
                need(all(np.array_equal(x, y) for x, y in zip(src, keep)), 'aliasing', '%s: a state built from a list of tensors writes into them' % what)
            elif o == 'tensors':
                for t in a.tensors:
                    t.shape
                changed = set()
            elif o == 'mutlist':
                for t in a.tolist():
                    t *= 1.7
                    t += 1.0
                changed = set()
            elif o == 'position':
                a.position(bond)
            elif o == 'imul':
                a *= [1.3, -1.1, 0.9][s % 3]
            elif o == 'idiv':
                a = a / 1.3
                if A.engine is None:
                    A.m = a
            elif o == 'iadd':
                if A is B or max(a.D) + max(b.D) > 12 or A.engine is not None:
                    continue
                a += b
                A.m = a
            elif o == 'gate1':
                a.applyOneSiteGate(gen.random_op(s, d[site], s % 2 == 0), site)
            elif o == 'gate2':
                i = min(site, N - 2)
                G = gen.random_op(s, d[i] * d[i + 1]).reshape(d[i], d[i + 1], d[i], d[i + 1])
                g0 = G.copy()
                a.applyTwoSiteGate(G, i, Dmax=4)
                need(np.array_equal(G, g0), 'aliasing', '%s: the gate was modified' % what)
            elif o == 'truncate':
                a.truncate(1e-6, D=3)
            elif o == 'Dmax':
                a.Dmax = 7 + s % 5
            elif o == 'resetZ':
                a.resetZ()
            elif o == 'canonize':
                a.canonize()
            elif o == 'regauge':
                a.regauge(gauge='left' if s % 2 else 'right')
                same_state = False
            elif o == 'setitem':
                t = np.array(a[site])
                a[site] = t * 1.1
            elif o == 'inplace':
                # numpy arithmetic on a tensor of the state
                if s % 2:
                    a[site] *= 1.1
                else:
                    t = a[site]
                    t[...] *= 0.9
            elif o == 'measure':
                a.measureList([gen.random_op(s + i, x) for i, x in enumerate(d)])
                a.measureLocal(gen.random_op(s, d[site]), site)
            elif o == 'dot':
                a.dot(b)
                a.measureMatrixElementList(b, [gen.random_op(s + i, x) for i, x in enumerate(d)])
            elif o == 'schmidt':
                a.getSchmidt(bond)
            elif o == 'applympo':
                if max(a.D) > 3:
                    continue
                c = a.copy()
                r = c.applyMPO(ham.mpo)
                if isinstance(r, L.MPS):
                    new = r
                changed = set()
            elif o in ('tebd', 'tdvp'):
                c = L.en.TimeEvolutionEngine
                if A.engine is not None or max(a.D) > 6 or dense.norm(A.v) < 1e-6:
                    continue
                if o == 'tdvp':
                    # the environments are those of a normalized, right-orthogonal state
                    a.position(N)
                    a.position(0)
                    A.note()
                e = (c.TEBD if o == 'tebd' else c.TDVP)(a, ham.mpo, 'e%d' % k)
                new = e
                changed = set()
            elif o == 'dmrg':
                # DMRG works on the state it is given
                if A.engine is not None or dense.norm(A.v) < 1e-6:
                    continue
                c = a.copy()
                c.position(N)
                c.position(0)
                c.resetZ()
                new = L.en.DMRGengine(c, ham.mpo, 'e%d' % k)
                changed = set()
            elif o == 'step':
                es = [i for i, x in enumerate(pool) if x.engine is not None]
                if not es:
                    continue
                ia = es[min(len(es) - 1, int(op['a'] * len(es)))]
                A = pool[ia]
                changed = {ia}
                step(L, A, s, N)
                what = 'op %d: step of engine %d (%s)' % (k, ia, A.kind)
            elif o == 'save':
                a.save('s%d' % k)
                changed = set()
            elif o == 'saveload':
                a.save('s%d' % k)
                m = L.MPS.random(N, 2, d, True)
                m.load('s%d' % k)
                new = m
                changed = set()
            elif o == 'reset':
                if A.engine is None or A.kind == 'dmrg':
                    continue
                A.engine.reset()
                changed = set()
            elif o == 'getmps':
                if A.engine is None:
                    continue
                new = A.engine.mps.copy()
                changed = set()
            if o in ('copy', 'deepcopy', 'getmps', 'saveload'):
                w = dense.vec(new)
                need(dense.close(w, A.v, 1e-12), 'copy differs', '%s: the copy is another state: %s' % (what, dense.dev(w, A.v)))
            done += 1
            ctx.count('op:' + o)
            for i, x in enumerate(pool):
                m = x.mps()
                v = dense.vec(m)
                if i in changed and not same_state:
                    x.note()
                    continue
                need(dense.close(v, x.v, 1e-9, max(1e-3, dense.norm(x.v))), 'influence', '%s changed the state of object %d (%s) by %s' % (what, i, x.kind, dense.dev(v, x.v)))
                attr = (m.pos, list(m.D), m.Dmax, m.obc)
                if i in changed or o == 'dot':
                    x.note()
                else:
                    need(attr == x.attr, 'influence', '%s changed (center, D, Dmax, obc) of object %d (%s) from %s to %s' % (what, i, x.kind, x.attr, attr))
            need(fingerprint_mpo(ham.mpo) == h0, 'influence', '%s changed the Hamiltonian' % what)
            if new is not None:
                if isinstance(new, L.MPS):
                    ob = Obj(new, o)
                    if dense.norm(ob.v) < 1e-6:
                        # MPS documents that it has no representation of zero
                        ob = Obj(gen.make_state(L, dict(case['state'], seed=s)), 'fresh')
                else:
                    ob = Obj(None, o, new)
                if len(pool) < 9:
                    pool.append(ob)
                else:
                    pool[1 + s % 8] = ob
            nrm = dense.norm(pool[ia].v)
            if not 1e-6 < nrm < 1e6 and pool[ia].engine is None:
                pool[ia] = Obj(gen.make_state(L, dict(case['state'], seed=s)), 'fresh')
            ctx.state(o, A.kind, len(pool))
            ctx.log(o, ia, [x.attr for x in pool], ['%.6g' % dense.norm(x.v) for x in pool])
    ctx.simtime += done
    ctx.nontrivial = done >= 4


def step(L, A, s, N):
    e = A.engine
    if A.kind == 'tebd':
        e.doTEBD(dt=-0.05j, numsteps=1 + s % 2, Dmax=4, tr_thresh=1e-12, verbose=0, cp=1 if s % 3 == 0 else None)
    elif A.kind == 'tdvp':
        e.doTDVP(dt=-0.05j, numsteps=1, krylov_dim=6, verbose=0, solver='LAN', cp=1 if s % 3 == 0 else None)
    else:
        c11.sweep(e, s % 2 == 0, 'LAN', 1, None, 0)


def run(case, ctx):
    (run_threads if case['kind'] == 'threads' else run_alias)(case, ctx)


def simplify(case):
    if case['kind'] == 'threads':
        for i, t in enumerate(case['tasks']):
            for key, val in (('n', 1), ('cp', None), ('D', None), ('solver', 'LAN')):
                if t[key] != val:
                    c = copy.deepcopy(case)
                    c['tasks'][i][key] = val
                    yield c
    elif case['state']['kind'] != 'product':
        c = copy.deepcopy(case)
        c['state']['kind'] = 'product'
        yield c
