"""C05: saving and loading lose nothing, and a failed save or load does no harm."""
import copy, os, pickle
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from . import c11
from .c03 import evo_simplify

PROP = 'C05'
LEVEL = 'exploration'
COUNTS = {'quick': 700, 'thorough': 30000}
LISTS = ['ops']
MINLEN = {'ops': 1}
RULE = ('a case is a state (finite or infinite) or a simulation and a seeded history of operations, saves (to fresh and existing names, with disk errors) and loads (into new and used objects, of complete and '
        'truncated files, with disk errors); a twin that is never saved receives the same operations; non-trivial if something was loaded and worked on afterwards')
REAL = ['lib.mpslib.mps.MPS.save/load', 'lib.mpslib.engines.Container.save/load', 'lib.utils.fileio', 'pickle', 'lib.mpslib', 'lib.Lanczos']
STUBS = ['files (simulated disk with errors and truncated files)', 'stdout']
STATE_MEASURE = 'distinct (object kind, operation, center position, bond dimensions, fault)'
TIMEUNIT = 'operations'
FOPS = ['position', 'position', 'gate1', 'gate2', 'gate2', 'truncate', 'imul', 'cmul', 'neg', 'conj', 'add', 'local', 'list', 'corr', 'schmidt', 'dot', 'canonize', 'resetZ', 'Dmax', 'measuretrunc']
IOPS = ['regaugel', 'regauger', 'position', 'position', 'imul', 'Dmax', 'resetZ', 'regauges', 'canonize', 'tensor']
EOPS = ['step', 'step', 'step', 'local', 'mpsposition', 'schmidt', 'dot', 'reset', 'Dmax']
ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES']


def fault(rng):
    kind = rng.choice(['any', 'write', 'write', 'fsync', 'rename', 'open', 'open'])
    return {'kind': kind, 'n': rng.randrange(3) if kind == 'any' else (rng.randrange(2) if kind == 'write' else 0), 'err': rng.choice(ERR), 'len': rng.choice([1, 1, 3]), 'part': rng.choice([None, None, 0.2, 0.8])}


def make(rng, tier):
    big = tier == 'thorough'
    kind = rng.choice(['finite', 'finite', 'finite', 'infinite', 'engine', 'engine'])
    ops = []
    menu = {'finite': FOPS, 'infinite': IOPS, 'engine': EOPS}[kind]
    n = rng.randint(4, 24 if big else 16)
    for _ in range(n):
        x = rng.random()
        o = {'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 's': rng.randrange(1 << 30)}
        if x < 0.22:
            o.update(op='save', name=rng.choice(['a', 'b', 'st.1']), fault=fault(rng) if rng.random() < 0.4 else None)
        elif x < 0.45:
            o.update(op='load', name=rng.choice(['a', 'b', 'st.1']), into=rng.choice(['new', 'new', 'used', 'self', 'other']), cut=rng.choice([None, None, None, round(rng.random(), 3), 1.0]),
                     fault={'kind': rng.choice(['read', 'open']), 'n': 0, 'err': 'EIO', 'len': 1} if rng.random() < 0.2 else None, use=rng.random() < 0.8)
        else:
            o.update(op=rng.choice(menu))
        ops.append(o)
    # something is saved early and loaded late
    ops.insert(rng.randint(0, len(ops) // 2), {'op': 'save', 'name': 'a', 'fault': None, 'x': 0.1, 'y': 0.1, 's': 1})
    ops.append({'op': 'save', 'name': 'b', 'fault': None, 'x': 0.1, 'y': 0.1, 's': 1})
    ops.append({'op': 'load', 'name': rng.choice('ab'), 'into': rng.choice(['new', 'used', 'other']), 'cut': None, 'fault': None, 'use': True, 'x': 0.3, 'y': 0.1, 's': 2})
    for _ in range(rng.randint(1, 4)):
        ops.append({'op': rng.choice(menu), 'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 's': rng.randrange(1 << 30)})
    c = {'kind': kind, 'ops': ops, 'npseed': rng.randrange(1 << 30)}
    if kind == 'engine':
        c['spec'] = evo.spec(rng, 3, 6 if big else 5, 4, maxdim=100 if big else 50)
        c['spec']['solver'] = rng.choice(['LAN', 'LAN', 'SEXPMV', 'RK45'])
        c['algo'] = rng.choice(['tebd', 'tdvp', 'dmrg2', 'dmrg1'])
        c['spec']['method'] = 'tdvp' if c['algo'] == 'tdvp' else 'tebd'
        if c['algo'] in ('tdvp', 'dmrg1'):
            c['spec']['state']['kind'] = rng.choice(['random', 'product', 'list'])
    elif kind == 'finite':
        d = gen.pick_dims(rng, 2, 7 if big else 6, 300 if big else 120)
        c['state'] = gen.state_spec(rng, d, 6)
        c['other'] = gen.state_spec(rng, d, 4)
        c['thresh'] = rng.choice([None, None, 3e-2, 1e-3])
    else:
        N = rng.choice([1, 1, 2, 3])
        c['state'] = {'N': N, 'D': rng.randint(2, 5), 'd': rng.choice([2, 2, 3]), 'cplx': rng.random() < 0.4, 'seed': rng.randrange(1 << 30)}
    return c


def attrs(m):
    return (len(m), int(m.pos), [int(x) for x in m.D], [int(x) for x in m.d], m.Dmax, m.obc, np.dtype(m.dtype))


def snap(m):
    """everything the public interface shows"""
    return (attrs(m), [np.array(t) for t in m.tolist()], [np.array(t) for t in m.tensors], complex(m._Z), np.array(m._mat),
            [np.array(m._connector)] + [np.array(t) for t in m._gamma] + [np.array(t) for t in m._lambda])


def same_array(x, y):
    # bytes: a connector may hold infinities or NaN where Schmidt values vanish
    return x.shape == y.shape and (np.array_equal(x, y) or x.tobytes() == y.tobytes())


def equal(a, b):
    return a[0] == b[0] and len(a[5]) == len(b[5]) and all(same_array(x, y) for k in (1, 2, 5) for x, y in zip(a[k], b[k])) and a[3] == b[3] and np.array_equal(a[4], b[4])


def diff(a, b):
    if a[0] != b[0]:
        return '(length, center, D, d, Dmax, obc, dtype) %s instead of %s' % (a[0], b[0])
    if a[3] != b[3]:
        return 'norm factor %s instead of %s' % (a[3], b[3])
    for k in (1, 2):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if x.shape != y.shape or not np.array_equal(x, y):
                return 'tensor %d differs (shapes %s, %s)' % (i, x.shape, y.shape)
    if not np.array_equal(a[4], b[4]):
        return 'center matrix differs'
    return 'connector or canonical form differs'


class Sub:
    """an object with a twin that is never saved"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def run(case, ctx):
    L = boot.lib()
    kind = case['kind']
    d = disk.SimDisk(ctx.scratch())
    loads = 0
    used = False
    with d:
        ham = None
        other = None
        if kind == 'engine':
            def fresh(name):
                sp = case['spec']
                if case['algo'].startswith('dmrg'):
                    h = gen.Ham(L, sp['ham'])
                    m = gen.make_state(L, sp['state'])
                    m.truncate(1e-8)
                    m.position(len(m))
                    m.position(0)
                    m.resetZ()
                    return L.en.DMRGengine(m, h.mpo, name), h
                e, _, h = evo.build(L, sp, name)
                if case['algo'] == 'tdvp':
                    e.mps.truncate(1e-8)
                    e.mps.resetZ()
                    e.update()
                return e, h
            a, ham = fresh('run')
            b, _ = fresh('twin')
        elif kind == 'finite':
            a = gen.make_state(L, case['state'])
            b = gen.make_state(L, case['state'])
            if case.get('thresh') is not None:
                # a state made with a threshold of its own: every later move drops Schmidt values below it
                a._schmidt_thresh = b._schmidt_thresh = case['thresh']
            other = gen.make_state(L, case['other'])
        else:
            a, b = infinite(L, case['state']), infinite(L, case['state'])
        sub = Sub(a, b)
        files = {}         # name -> (snapshot, deep copy of the twin) of the version the file must hold

        def M(x):
            return x.mps if kind == 'engine' else x
        dead = False
        for k, op in enumerate(case['ops']):
            o = op['op']
            what = 'op %d %s' % (k, o)
            if o == 'save':
                before = snap(M(sub.a))
                path = os.path.join(d.root, op['name'] + '.pickle')
                old = open(path, 'rb').read() if os.path.exists(path) else None
                arm(d, op['fault'])
                nf = len(d.fired)
                err = None
                try:
                    sub.a.save(op['name'])
                except OSError as e:
                    need(len(d.fired) > nf, 'unexpected error', '%s: %r' % (what, e))
                    err = e
                d.faults = []
                need(equal(snap(M(sub.a)), before), 'saving changed the original', '%s: %s' % (what, diff(snap(M(sub.a)), before)))
                if err is not None:
                    what += ' with %s' % (d.fired[-1][:2],)
                    ctx.state(kind, 'save', d.fired[-1][:2])
                    now = open(path, 'rb').read() if os.path.exists(path) else None
                    if old is not None:
                        need(now == old or now is not None and same_version(L, kind, op['name'], (snap(M(sub.a)),)), 'earlier file damaged', '%s: the earlier file of %d bytes is now %s' % (
                            what, len(old), 'gone' if now is None else '%d bytes long' % len(now)))
                        if now != old:
                            files[op['name']] = (before, copy.deepcopy(sub.b), counters(sub.a))
                else:
                    files[op['name']] = (before, copy.deepcopy(sub.b), counters(sub.a))
                    need(os.path.exists(path), 'no file', '%s: no file' % what)
            elif o == 'load':
                if op['name'] not in files:
                    continue
                want, twin, cnt = files[op['name']]
                path = os.path.join(d.root, op['name'] + '.pickle')
                content = open(path, 'rb').read()
                cut = op['cut']
                if cut is not None:
                    n = len(content) - 1 if cut == 1.0 else int(cut * len(content))
                    d.names.pop(path, None)
                    d.seed_file(op['name'] + '.pickle', content[:n])
                arm(d, op['fault'])
                nf = len(d.fired)
                into = op['into']
                if into == 'other' and other is None:
                    into = 'used'
                target = sub.a if into == 'self' else None
                if kind == 'engine':
                    target = target or L.en.Container()
                elif target is None:
                    if into == 'other':
                        target = other
                    elif kind == 'infinite' or op['s'] % 3 == 0:
                        target = L.MPS.random(2 + op['s'] % 4, 3, 2, op['s'] % 2 == 0)
                    else:
                        target = L.MPS.random(len(sub.a), 3, sub.a.d, True, dtype=complex if op['s'] % 2 else float)
                    if into == 'used' and target.obc:
                        target.position(len(target) // 2)
                        target.Dmax = 11
                        target.canonize()
                        target *= 2.0
                tsnap = snap(target) if kind != 'engine' else snap(M(sub.a))
                err, got = None, None
                try:
                    got = target.load(op['name'])
                    if kind != 'engine':
                        got = target
                except Exception as e:
                    if hasattr(e, 'kind') and hasattr(e, 'msg'):
                        raise
                    err = e
                d.faults = []
                if cut is not None:
                    need(err is not None, 'damaged file accepted', '%s: %d of %d bytes were there, load raised nothing' % (what, n, len(content)))
                    ctx.fault('truncated file')
                    d.names.pop(path, None)
                    d.seed_file(op['name'] + '.pickle', content)
                if err is not None:
                    need(cut is not None or len(d.fired) > nf, 'load failed', '%s into %s: %r' % (what, into, err))
                    tnow = snap(target) if kind != 'engine' else snap(M(sub.a))
                    need(equal(tnow, tsnap), 'failed load changed the object', '%s: %s' % (what, diff(tnow, tsnap)))
                    ctx.count('failed loads')
                    need(open(path, 'rb').read() == content, 'load changed the file', what)
                    ctx.state(kind, 'load failed', into)
                    continue
                need(open(path, 'rb').read() == content, 'load changed the file', what)
                loads += 1
                s = snap(M(got))
                need(equal(s, want), 'loaded object differs', '%s into %s: %s' % (what, into, diff(s, want)))
                need(counters(got) == cnt, 'loaded object differs', '%s: counters %s, saved %s' % (what, counters(got), cnt))
                ctx.count('loads into ' + into)
                if op['use'] or into == 'self' and kind != 'engine' or got is other:
                    if got is other:
                        # two references to one state would confuse the twin
                        other = gen.make_state(L, case['other'])
                    sub = Sub(got, copy.deepcopy(twin))
                    used = True
            else:
                ra = apply(L, sub.a, op, kind, case, other, ham, 'run')
                rb = apply(L, sub.b, op, kind, case, other, ham, 'twin')
                if ra is None:
                    continue
                tol = 1e-8 if kind != 'engine' else (1e-6 if case['algo'] in ('tebd',) else 1e-4 if case['algo'].startswith('dmrg') else 3 * evo.TOL[case['spec']['solver']])
                for x, y in zip(ra, rb):
                    x, y = np.asarray(x), np.asarray(y)
                    need(x.shape == y.shape and dense.norm(x - y) <= tol * max(1.0, dense.norm(y)), 'later results differ', '%s: %s, on the object that was never saved %s' % (what, x, y))
                A, B = M(sub.a), M(sub.b)
                need(attrs(A) == attrs(B), 'later results differ', '%s: (length, center, D, d, Dmax, obc, dtype) %s, on the object that was never saved %s' % (what, attrs(A), attrs(B)))
                if A.obc:
                    v, w = dense.vec(A), dense.vec(B)
                    if kind == 'engine':
                        need(case['algo'].startswith('dmrg') or dense.fidelity_dev(v, w) < tol, 'later results differ', '%s: state deviates from the one never saved by %.3g' % (what, dense.fidelity_dev(v, w)))
                    else:
                        need(dense.close(v, w, tol, max(1e-6, dense.norm(w))), 'later results differ', '%s: state vector deviates from the one never saved by %s' % (what, dense.dev(v, w)))
                else:
                    va, vb = transfer_values(A), transfer_values(B)
                    need(dense.norm(va - vb) < 1e-7 * max(1, dense.norm(vb)), 'later results differ', '%s: local values per unit cell %s, never saved %s' % (what, va, vb))
                need(counters(sub.a) == counters(sub.b), 'later results differ', '%s: counters %s, never saved %s' % (what, counters(sub.a), counters(sub.b)))
            ctx.count('op:' + o)
            A = M(sub.a)
            ctx.state(kind, o, A.pos, tuple(A.D))
            ctx.log(o, attrs(A)[:4])
            ctx.simtime += 1
    for kd, e, _ in d.fired:
        ctx.fault('disk %s %s' % (kd, e))
    ctx.nontrivial = used


def same_version(L, kind, name, versions):
    try:
        m = (L.en.Container().load(name)).mps if kind == 'engine' else load_mps(L, name)
    except Exception:
        return False
    s = snap(m)
    return any(equal(s, v) for v in versions)


def load_mps(L, name):
    m = L.MPS.random(2, 2, 2, True)
    m.load(name)
    return m


def counters(e):
    if hasattr(e, 'iteration') and hasattr(e, 'time'):
        return (e.iteration, round(float(e.time), 10), round(float(e.truncatedWeight), 8))
    return ()


def arm(d, f):
    d.faults = []
    if f is not None:
        d.faults = [dict(f, n=d.counts.get(f['kind'], 0) + f['n'])]


def infinite(L, st):
    r = gen.rs(st['seed'])
    N, D, d = st['N'], st['D'], st['d']
    ts = []
    for n in range(N):
        t = r.standard_normal((D, D, d))
        if st['cplx']:
            t = t + 1j * r.standard_normal((D, D, d))
        ts.append(t)
    m = L.MPS.fromList(ts)
    m.regauge(gauge='right')
    return m


def transfer_values(m):
    """expectation value of one operator on every site of the unit cell, from the dense transfer matrix"""
    ts = [np.asarray(t) for t in m.tolist()]
    N = len(ts)
    T = [np.einsum('abs,cds->acbd', t, np.conj(t)).reshape(t.shape[0] ** 2, t.shape[1] ** 2) for t in ts]
    O = []
    for t in ts:
        x = t.shape[2]
        op = np.diag(np.arange(1.0, x + 1)) + 0.3 * np.ones((x, x))
        O.append(np.einsum('abs,st,cdt->acbd', t, op, np.conj(t)).reshape(t.shape[0] ** 2, t.shape[1] ** 2))
    E = np.eye(T[0].shape[0])
    for x in T:
        E = E.dot(x)
    w, vr = np.linalg.eig(E)
    i = int(np.argmax(np.abs(w)))
    r = vr[:, i]
    w2, vl = np.linalg.eig(E.T)
    j = int(np.argmax(np.abs(w2)))
    l = vl[:, j]
    out = []
    for n in range(N):
        x = l
        for k in range(N):
            x = x.dot(O[k] if k == n else T[k])
        out.append(x.dot(r) / (l.dot(r) * w[i]))
    return np.real(np.array(out))


def apply(L, m, op, kind, case, other, ham, name):
    o = op['op']
    s = op['s']
    if kind == 'engine':
        algo = case['algo']
        M = m.mps
        N = len(M)
        if o == 'step':
            if algo.startswith('dmrg'):
                e = c11.sweep(m, algo == 'dmrg2', 'LAN', 1 + s % 2, None, 0, econv=0.0)
                return [np.real(e), ham.energy(dense.vec(m.mps)).real]
            dts = evo.DT_REAL
            evo.steps(m, case['spec'], dts[s % 2], 1 + s % 3, None, 1e-14, None, False, 0, algo)
            return []
        if o == 'local':
            # an observation in the middle of the history, at a fresh gauge
            if algo.startswith('dmrg'):
                return []
            return [np.asarray(m.measureLocal([gen.random_op(s + i, x) for i, x in enumerate(M.d)]))]
        if o == 'mpsposition':
            M.position(hist.bond_of(op['x'], N))
            return []
        if o == 'schmidt':
            x = np.sort(np.abs(np.asarray(M.getSchmidt(hist.bond_of(op['x'], N)))))[::-1]
            return [x[x > 1e-4] if not algo.startswith('dmrg') else np.sum(x ** 2)]
        if o == 'dot':
            return [np.real(M.dot(M))]
        if o == 'reset' and hasattr(m, 'reset'):
            m.reset()
            return []
        if o == 'Dmax':
            # limits the two-site runs, no more
            return [M.Dmax]
        return None
    N = len(m)
    if kind == 'infinite':
        if o == 'regaugel':
            m.regauge(gauge='left')
        elif o == 'regauger':
            m.regauge(gauge='right')
        elif o == 'regauges':
            m.regauge(gauge='symmetric')
        elif o == 'canonize':
            m.canonize()
        elif o == 'position':
            m.position(hist.bond_of(op['x'], N))
        elif o == 'imul':
            m *= 1.5
        elif o == 'Dmax':
            m.Dmax = 5 + s % 7
        elif o == 'resetZ':
            m.resetZ()
        elif o == 'tensor':
            return [np.asarray(m[hist.site_of(op['x'], N)]).shape]
        return []
    d = m.d
    site, bond = hist.site_of(op['x'], N), hist.bond_of(op['x'], N)
    cplx = s % 3 == 0
    if o == 'position':
        m.position(bond)
    elif o == 'gate1':
        m.applyOneSiteGate(gen.random_op(s, d[site], cplx) / 2, site)
    elif o == 'gate2':
        i = min(site, N - 2)
        G = gen.random_op(s, d[i] * d[i + 1], cplx).reshape(d[i], d[i + 1], d[i], d[i + 1]) / 3
        tw = m.applyTwoSiteGate(G, i, Dmax=8, thresh=1e-10)[0]
        return [tw]
    elif o == 'truncate':
        m.truncate(1e-9, D=6)
    elif o == 'measuretrunc':
        c = m.copy()
        c.truncate(1e-9)
        return [len(c), dense.norm(dense.vec(c))]
    elif o == 'imul':
        m *= 1.3
    elif o == 'cmul':
        m *= (0.8 + 0.6j)
    elif o == 'neg':
        return [dense.vec(-m)]
    elif o == 'conj':
        m.conj() if s % 2 else m.conjugate()
    elif o == 'add':
        return [dense.vec(m + other), dense.vec(m - other)]
    elif o == 'local':
        return [m.measureLocal(gen.random_op(s, d[site], cplx), site)]
    elif o == 'list':
        return [m.measureList([gen.random_op(s + i, x) for i, x in enumerate(d)])]
    elif o == 'corr':
        sites = sorted([site, hist.site_of(op['y'], N)])
        return [m.measure([gen.random_op(s + i, d[q]) for i, q in enumerate(sites)], sites)]
    elif o == 'schmidt':
        x = np.sort(np.abs(np.asarray(m.getSchmidt(bond))))[::-1]
        return [x]
    elif o == 'dot':
        return [m.dot(other), m.dot(m)]
    elif o == 'canonize':
        m.canonize()
    elif o == 'resetZ':
        m.resetZ()
    elif o == 'Dmax':
        m.Dmax = 9 + s % 5
    return []


def simplify(case):
    if case['kind'] == 'engine':
        for c in evo_simplify(case):
            if len(c['spec']['state']['d']) > 2:
                yield c
    elif case['kind'] == 'finite':
        st = case['state']
        if len(st['d']) > 2:
            c = copy.deepcopy(case)
            c['state']['d'] = c['other']['d'] = st['d'][:-1]
            yield c
        if st['kind'] != 'product':
            c = copy.deepcopy(case)
            c['state']['kind'] = 'product'
            yield c
    for i, op in enumerate(case['ops']):
        for key in ('fault', 'cut'):
            if op.get(key) is not None:
                c = copy.deepcopy(case)
                c['ops'][i][key] = None
                yield c
