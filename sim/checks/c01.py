"""C01: a completed checkpoint survives every later crash and disk fault."""
import copy, io, os, pickle, re
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from ..numseam import SEAM
from . import c11, c02
from .c03 import evo_simplify

PROP = 'C01'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 420, 'thorough': 14000}
LISTS = ['calls', 'faults']
MINLEN = {'calls': 1}
RULE = ('a case is one or two simulations (TEBD, TDVP, finite or infinite DMRG, VUMPS, gradient optimisation) making seeded calls with checkpoints and saves on a simulated disk, with seeded disk errors; the crash states '
        'before every disk operation and inside every write, for a killed process and for a power failure, are all computed and inspected; non-trivial if a checkpoint was complete before the last crash point')
REAL = ['lib.mpslib.engines (all engines)', 'lib.mpslib.mps.MPS.save', 'lib.utils.fileio', 'pickle', 'numpy.save', 'lib.mpslib numerics']
STUBS = ['files (simulated disk: journal, errors, crash states)', 'stdout']
STATE_MEASURE = 'distinct (engine, kind of disk operation crashed at, crash model, files present)'
TIMEUNIT = 'checkpoints written'
ASSUMPTIONS = ['directory operations (create, rename, remove) reach the disk in the order they were issued; file data does so only when it was fsynced']


def make(rng, tier):
    big = tier == 'thorough'
    x = rng.random()
    kind = 'evo' if x < 0.6 else 'dmrg' if x < 0.8 else 'vumps' if x < 0.87 else 'grad' if x < 0.92 else 'idmrg'
    c = {'kind': kind, 'npseed': rng.randrange(1 << 30), 'calls': [], 'faults': []}
    name = rng.choice(['run', 'run', 'r.un', 'run_tebd_cp1'])
    c['name'] = name
    if kind in ('evo', 'dmrg'):
        c['spec'] = evo.spec(rng, 3, 6, 4, maxdim=100)
        c['spec']['solver'] = 'LAN'
        c['spec']['krylov'] = 6
        if rng.random() < 0.25:
            # larger files: several writes per save
            c['spec']['state'].update(kind='list', D=24, d=[2] * 10)
            c['spec']['ham'] = {'kind': 'xxz', 'N': 10, 'cplx': False, 'seed': rng.randrange(1 << 30), 'scale': 1.0}
        for _ in range(rng.randint(1, 4)):
            if kind == 'evo':
                m = rng.choice(['tebd', 'tebd', 'tdvp'])
                c['calls'].append({'m': rng.choice([m] * 8 + ['save', 'savemps']), 'n': rng.randint(1, 8 if m == 'tebd' else 4), 'cp': rng.choice([1, 1, 2, 3]), 'keep': rng.random() < 0.3,
                                   'reset': rng.random() < 0.2})
            else:
                c['calls'].append({'m': rng.choice(['one', 'two', 'one', 'two', 'save', 'savemps']), 'n': rng.randint(1, 4), 'cp': rng.choice([1, 1, 2]), 'keep': True, 'reset': False})
        if len(c['spec']['state']['d']) == 10:
            for k in c['calls']:
                k['n'] = min(k['n'], 3)
    elif kind == 'vumps':
        c['calls'] = [{'m': 'vumps', 'n': rng.randint(3, 12), 'cp': rng.choice([1, 2, 3]), 'keep': True, 'reset': False} for _ in range(rng.randint(1, 2))]
    elif kind == 'grad':
        c['calls'] = [{'m': 'grad', 'n': rng.randint(4, 14), 'cp': rng.choice([1, 2, 3]), 'keep': True, 'reset': False}]
    else:
        c['calls'] = [{'m': rng.choice(['one', 'two']), 'n': rng.randint(2, 5), 'cp': rng.choice([1, 2]), 'keep': True, 'reset': False} for _ in range(1)]
    if rng.random() < 0.45:
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(['any', 'any', 'write', 'fsync', 'rename', 'open', 'remove'])
            c['faults'].append({'kind': k, 'n': rng.randrange(50 if k == 'any' else 12), 'len': rng.choice([1, 1, 2, 4]), 'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EROFS']), 'part': rng.choice([None, 0.3, 0.9])})
    return c


def pattern(kind, name):
    n = re.escape(name)
    if kind == 'evo':
        return [r'^%s_(tebd|tdvp)_cp\d+\.pickle$' % n, r'^saved\.pickle$', r'^savedmps\.pickle$']
    if kind in ('dmrg', 'idmrg'):
        return [r'^%s_dmrg_cp\.pickle$' % n, r'^saved\.pickle$', r'^savedmps\.pickle$']
    if kind == 'vumps':
        return [r'^CP_mps%s\.npy$' % n]
    return [r'^CPTensor%s\.npy$' % n]


class Versions:
    """checkpoints in the order in which they were seen complete"""

    def __init__(self, L, kind, name, dim):
        self.L, self.kind, self.dim = L, kind, dim
        self.pats = [re.compile(p) for p in pattern(kind, name)]
        self.known = [dict() for _ in self.pats]      # per family: bytes -> rank
        self.best = [-1 for _ in self.pats]
        self.holds = {}                               # file -> has held a complete version
        self.points = []                              # (journal length, best per family, files that hold complete versions)
        self.total = 0

    def family(self, f):
        for i, p in enumerate(self.pats):
            if p.match(f):
                return i
        return None

    def valid(self, f, b):
        """does it load, and is it a state?"""
        try:
            if f.endswith('.npy'):
                a = np.load(io.BytesIO(b), allow_pickle=True)
                return a.size > 0 and bool(np.all(np.isfinite(np.asarray(a, dtype=complex))))
            o = pickle.loads(b)
        except Exception:
            return False
        m = o if isinstance(o, self.L.MPS) else getattr(o, 'mps', None)
        return m is not None and len(m) > 0 and all(np.all(np.isfinite(t)) for t in m.tensors)

    def see(self, d):
        """called at a mark: the program works on something else, all saves so far are over"""
        pos, files = d.marks[-1]
        for f, b in sorted(files.items()):
            i = self.family(f)
            if i is None:
                continue
            if b not in self.known[i]:
                ok = self.valid(f, b)
                if not ok:
                    need(f not in self.holds and d.fired, 'damaged checkpoint', '%s (%d bytes) does not load although its save is over' % (f, len(b)))
                    continue
                self.known[i][b] = self.total
                self.best[i] = self.total
                self.total += 1
            self.holds[f] = True
        for i in range(len(self.pats)):
            have = [self.known[i][b] for f, b in files.items() if self.family(f) == i and b in self.known[i]]
            if self.best[i] >= 0:
                need(have and max(have) >= self.best[i], 'checkpoint lost', 'newest complete checkpoint (number %d) is gone, files: %s' % (self.best[i], sorted(files)))
        self.points.append((pos, list(self.best), set(f for f in files if f in self.holds)))


def run(case, ctx):
    L = boot.lib()
    kind, name = case['kind'], case['name']
    d = disk.SimDisk(ctx.scratch(), case['faults'])
    V = Versions(L, kind, name, None)
    d.on_mark = V.see
    SEAM.listeners.append(lambda what: d.mark())
    with d:
        errors = program(L, case, d, ctx)
        d.mark()
    SEAM.listeners.clear()
    # every crash point
    rng = __import__('random').Random(case['npseed'])
    J = d.journal
    crashes = 0
    seen_before_end = False
    pts = V.points
    pi = -1
    for at in range(len(J) + 1):
        while pi + 1 < len(pts) and pts[pi + 1][0] <= at:
            pi += 1
        best, holds = (pts[pi][1], pts[pi][2]) if pi >= 0 else ([-1] * len(V.pats), set())
        if any(b >= 0 for b in best) and at < len(J):
            seen_before_end = True
        op = J[at] if at < len(J) else ('end',)
        points = [(None, 'kill'), (None, 'power'), (None, 'power'), (None, 'power')]
        if op[0] == 'write':
            points += [(0.5, 'kill'), (rng.random(), 'kill'), (rng.random(), 'power')]
        for split, model in points:
            files = d.crash_state(at, split, model, rng)
            crashes += 1
            inspect(V, files, best, holds, 'crash (%s) before disk operation %d of %d (%s)%s' % (
                'process killed' if model == 'kill' else 'power failure', at, len(J), op[0], '' if split is None else ', %d%% of its data written' % (100 * split)), ctx)
            ctx.state(kind, op[0], model, len([f for f in files if V.family(f) is not None]), len(files))
    ctx.fault('crash point', crashes)
    for k, e, _ in d.fired:
        ctx.fault('disk %s %s' % (k, e))
    ctx.count('kind:' + kind)
    ctx.count('complete checkpoints', V.total)
    ctx.count('calls ended by a disk error', errors)
    ctx.simtime += V.total
    ctx.log(len(J), [x[0] for x in J][:200], V.total, errors)
    ctx.nontrivial = seen_before_end


def inspect(V, files, best, holds, what, ctx):
    for i in range(len(V.pats)):
        if best[i] < 0:
            continue
        have = []
        for f, b in files.items():
            if V.family(f) == i:
                r = V.known[i].get(b)
                if r is not None:
                    have.append(r)
                elif V.valid(f, b):
                    # complete, though no one looked before it was replaced
                    have.append(best[i])
                    ctx.count('complete version between two looks')
        need(have, 'no checkpoint', '%s: a checkpoint was complete, now none is; files: %s' % (what, {f: len(b) for f, b in sorted(files.items())}))
        need(max(have) >= best[i], 'older checkpoint', '%s: checkpoint number %d was complete, the newest one left is number %d; files: %s' % (what, best[i], max(have), sorted(files)))
    for f in holds:
        b = files.get(f)
        if b is not None:
            i = V.family(f)
            need(b in V.known[i] or V.valid(f, b), 'file damaged', '%s: %s held a complete checkpoint and is damaged now (%d bytes)' % (what, f, len(b)))


def program(L, case, d, ctx):
    kind, name = case['kind'], case['name']
    errors = 0

    def attempt(f):
        nf = len(d.fired)
        try:
            f()
            return True
        except OSError as e:
            need(len(d.fired) > nf, 'unexpected error', repr(e))
            return False
    if kind in ('evo', 'dmrg'):
        sp = case['spec']
        eng, mps, ham = evo.build(L, dict(sp, method='tebd'), name)
        if kind == 'dmrg':
            eng = L.en.DMRGengine(mps, ham.mpo, name)
        for c in case['calls']:
            def go(c=c):
                if c['m'] == 'save':
                    eng.save('saved')
                elif c['m'] == 'savemps':
                    eng.mps.save('savedmps')
                elif kind == 'dmrg':
                    c11.sweep(eng, c['m'] == 'two', 'LAN', c['n'], c['cp'], 0, econv=0.0)
                else:
                    evo.steps(eng, sp, -0.05j, c['n'], 8, 1e-12, c['cp'], c['keep'], 0, c['m'])
            if c['reset'] and kind == 'evo':
                eng.reset()
            for _ in range(1 if c['m'] not in ('save', 'savemps') else 2):
                if not attempt(go):
                    errors += 1
                    # try once more, on the disk as it is then
                    if not attempt(go):
                        errors += 1
                d.mark()
                if c['m'] in ('save', 'savemps'):
                    eng.mps.position(len(eng.mps) // 2)
    elif kind == 'vumps':
        r = gen.rs(case['npseed'])
        mps = L.MPS.fromList([gen.rmat(r, 4, 8, False).reshape(4, 4, 2)])
        mps.regauge(gauge='right')
        eng = L.en.VUMPSengine(mps, L.H.TFI(-np.ones(1), 2.0 * np.ones(1), False), name)
        n = 0
        for c in case['calls']:
            n += c['n']
            if not attempt(lambda: eng.simulate(Nmax=n, epsilon=1e-13, tol=1e-10, lgmrestol=1e-10, ncv=20, numeig=2, artol=1e-10, arncv=10, solver='LAN', svd=True, checkpoint=c['cp'])):
                errors += 1
                attempt(lambda: eng.simulate(Nmax=n, epsilon=1e-13, tol=1e-10, lgmrestol=1e-10, ncv=20, numeig=2, artol=1e-10, arncv=10, solver='LAN', svd=True, checkpoint=c['cp']))
            d.mark()
    elif kind == 'grad':
        r = gen.rs(case['npseed'])
        t = r.random_sample((4, 4, 2)) - 0.5
        mpo = L.H.TFI(-np.ones(2), 2 * np.ones(2), False)[0]
        for c in case['calls']:
            eng = L.en.HomogeneousIMPSengine(c['n'], t, mpo, name, alpha=.05, alphas=[.1, .2], normgrads=[1e-3, 1e-5], dtype=float)
            if not attempt(lambda: eng.simulate(checkpoint=c['cp'])):
                errors += 1
                attempt(lambda: eng.simulate(checkpoint=c['cp']))
            d.mark()
    else:
        L.np.random.seed(case['npseed'] % (1 << 32))
        mps = L.MPS.random(N=2, D=4, d=2, obc=False)
        mps.regauge(gauge='symmetric')
        mpo = L.H.TFI(-np.ones(2), 2 * np.ones(2), False)
        eng = L.en.IDMRGengine(mps, mpo, name)
        for c in case['calls']:
            def go(c=c):
                kw = dict(Nmax=c['n'], NUC=1, cp=c['cp'], verbose=0, solver='LAN', tol=1e-8, ncv=10, regaugestep=0)
                (eng.simulateTwoSite if c['m'] == 'two' else eng.simulate)(**kw)
            if not attempt(go):
                errors += 1
            d.mark()
    return errors


def simplify(case):
    if 'spec' in case:
        for c in evo_simplify(case):
            if len(c['spec']['state']['d']) > 2:
                yield c
    for i, s in enumerate(case['calls']):
        for key, val in (('n', 1), ('n', s['n'] - 1), ('reset', False)):
            if s[key] != val and not (key == 'n' and val < 1):
                c = copy.deepcopy(case)
                c['calls'][i][key] = val
                yield c
