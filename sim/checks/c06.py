"""C06: watching a simulation does not change it."""
import copy, os
import numpy as np
from .. import boot, dense, gen, hist, evo, disk
from ..hist import need
from ..numseam import SEAM
from . import c11
from .c03 import evo_simplify

PROP = 'C06'
LEVEL = 'exploration'
COUNTS = {'quick': 330, 'thorough': 20000}
LISTS = ['segs', 'looks']
MINLEN = {'segs': 1}
RULE = ('a case is a chain, a Hamiltonian, an algorithm (TEBD, TDVP, one- or two-site DMRG) and a seeded schedule of observations (local, correlations, overlaps, Schmidt values, repositioning, '
        'copies, saves, prints, checkpoints) placed between its calls; the same calls without any observation are run alongside; non-trivial if at least two observations lay between calls')
REAL = ['lib.mpslib.engines', 'lib.mpslib.mps.MPS', 'lib.mpslib.mpsfunctions', 'lib.Lanczos', 'pickle', 'ARPACK/LAPACK']
STUBS = ['files (simulated disk)', 'stdout']
STATE_MEASURE = 'distinct (algorithm, kind of observation, center position, bond dimension profile)'
TIMEUNIT = 'steps or sweeps'
LOOKS = ['local', 'local', 'list', 'corr', 'overlap', 'selfoverlap', 'schmidt', 'schmidt', 'position', 'position', 'copy', 'workcopy', 'deepcopy', 'engsave', 'mpssave', 'print', 'engposition', 'engtruncate0',
         'melem', 'workother', 'englocal', 'canonizecopy', 'arith']


def make(rng, tier):
    big = tier == 'thorough'
    algo = rng.choice(['tebd', 'tebd', 'tdvp', 'tdvp', 'dmrg1', 'dmrg2'])
    wide = algo == 'tdvp' and rng.random() < 0.5        # bonds narrower than the chain allows
    sp = evo.spec(rng, 2 if algo == 'tebd' else 6 if wide else 3, 7 if big or wide else 6, 3 if wide else 4, maxdim=200 if big or wide else 80, dims=(2,) if wide else (2, 2, 2, 3))
    sp['method'] = 'tebd' if algo == 'tebd' else 'tdvp'
    sp['solver'] = rng.choice(['LAN', 'LAN', 'SEXPMV', 'RK45'])
    if algo in ('tdvp', 'dmrg1'):
        sp['state']['kind'] = rng.choice(['random', 'list', 'product'])
    trunc = rng.random() < 0.5
    segs, looks = [], []
    dt = rng.choice(evo.DT_REAL + evo.DT_REAL + evo.DT_IMAG)
    nseg = rng.randint(2, 4)
    for k in range(nseg):
        segs.append({'dt': evo.dt_json(dt), 'n': rng.choice([1, 1, 2, 3] if algo == 'tebd' else [1, 2, 3] if wide else [1, 1, 2]), 'D': rng.choice([2, 3, 4, None]) if trunc else None,
                     'th': rng.choice([1e-14, 1e-5, 1e-3]) if trunc else 1e-14, 'cp': rng.choice([None, None, 1, 2]), 'keep': rng.random() < 0.5, 'verbose': rng.choice([0, 1, 2, 2])})
    for _ in range(rng.randint(2, 9)):
        looks.append({'at': rng.randrange(nseg), 'what': rng.choice(LOOKS), 'x': round(rng.random(), 4), 'y': round(rng.random(), 4), 's': rng.randrange(1 << 30)})
    if algo == 'tebd' and rng.random() < 0.1:
        evo.shorten(rng, sp)
        for s in segs:
            s['n'] = rng.choice([1, 9, 15])
    return {'algo': algo, 'spec': sp, 'segs': segs, 'looks': looks, 'other': gen.state_spec(rng, sp['state']['d'], 4), 'dsolver': rng.choice(['AR', 'LAN']), 'npseed': rng.randrange(1 << 30)}


def engine(L, case, name):
    sp = case['spec']
    algo = case['algo']
    if algo in ('tebd', 'tdvp'):
        eng, _, ham = evo.build(L, sp, name)
    else:
        ham = gen.Ham(L, sp['ham'])
        st = dict(sp['state'])
        mps = gen.make_state(L, st)
        mps.position(len(st['d']))
        mps.position(0)
        mps.resetZ()
        eng = L.en.DMRGengine(mps, ham.mpo, name)
    if algo in ('tdvp', 'dmrg1'):
        # the course of a one-site method is a function of the state only if no bond is wider than the rank
        m = eng.mps
        m.truncate(1e-8)
        m.resetZ()
        if algo == 'dmrg1':
            eng = L.en.DMRGengine(m, ham.mpo, name)
        else:
            eng = L.en.TimeEvolutionEngine.TDVP(m, ham.mpo, name)
    return eng, ham


def call(eng, case, s, cp, verbose):
    algo = case['algo']
    if algo in ('tebd', 'tdvp'):
        evo.steps(eng, case['spec'], evo.dt_of(s['dt']), s['n'], s['D'], s['th'], cp, s['keep'], verbose)
        return None
    return c11.sweep(eng, algo == 'dmrg2', case['dsolver'], s['n'], cp, verbose, econv=0.0)


def run(case, ctx):
    L = boot.lib()
    algo = case['algo']
    with disk.SimDisk(ctx.scratch()) as sd:
        A, ham = engine(L, case, 'watched')
        B, _ = engine(L, case, 'alone')
        other = gen.make_state(L, case['other'])
        oref = dense.vec(other)
        v = dense.vec(A.mps)
        need(dense.close(v, dense.vec(B.mps), 1e-13), 'start', 'two states made the same way differ')
        sc = max(1.0, abs(ham.gs[0][0]), abs(ham.gs[0][-1]))
        model = evo.TEBDModel(ham, v) if algo == 'tebd' else None
        clear = True
        watched = 0
        it = 0
        cond = 1.0
        for k, s in enumerate(case['segs']):
            truncates = s['D'] is not None or s['th'] > 1e-12
            cp = s['cp']
            cpB = cp if algo == 'tebd' and truncates else None
            eA = call(A, case, s, cp, s['verbose'])
            eB = call(B, case, s, cpB, 0)
            if model is not None:
                model.call(evo.dt_of(s['dt']), s['n'], s['D'], s['th'], cp if truncates else None, it)
                clear = clear and model.clear
            it += s['n']
            what = '%s, after call %d' % (algo, k)
            v, w = dense.vec(A.mps), dense.vec(B.mps)
            if algo in ('tebd', 'tdvp'):
                need(A.iteration == B.iteration and abs(A.time - B.time) < 1e-12, 'counters', '%s: step and time %s, unwatched %s' % (what, (A.iteration, A.time), (B.iteration, B.time)))
                if clear:
                    need(abs(A.truncatedWeight - B.truncatedWeight) < 1e-9, 'counters', '%s: truncated weight %.12g, unwatched %.12g' % (what, A.truncatedWeight, B.truncatedWeight))
                tol = 1e-6 if algo == 'tebd' else 3 * evo.TOL[case['spec']['solver']]
                if clear:
                    dv = dense.fidelity_dev(v, w)
                    need(dv < tol, 'state', '%s: the watched state differs from the unwatched by %.3g (bond dimensions %s, %s)' % (what, dv, A.mps.D, B.mps.D))
                    need(list(A.mps.D) == list(B.mps.D) or all(abs(a - b) <= 0 or not truncates for a, b in zip(A.mps.D, B.mps.D)) or min_gap(w, s['th']) < 1e-3, 'bond dimensions',
                         '%s: bond dimensions %s, unwatched %s' % (what, A.mps.D, B.mps.D))
            else:
                E, F = ham.energy(v).real, ham.energy(w).real
                need(abs(eA - eB) < 2e-6 * sc and abs(E - F) < 2e-6 * sc, 'energy', '%s: energy %.12g (of the state %.12g), unwatched %.12g (%.12g)' % (what, eA, E, eB, F))
            need(abs(dense.norm(v) - 1) < 1e-6, 'norm', '%s: norm %.10g' % (what, dense.norm(v)))
            for l in case['looks']:
                if l['at'] == k:
                    before = dense.vec(A.mps)
                    observe(L, A, other, oref, l, before, ctx, case, ham, sd)
                    now = dense.vec(A.mps)
                    need(dense.close(now, before, 1e-9), 'observation changed the state', '%s: %s changed the state by %s' % (what, l['what'], dense.dev(now, before)))
                    need(dense.close(dense.vec(other), oref, 1e-10), 'observation changed the state', '%s: %s changed the other state' % (what, l['what']))
                    ctx.count('look:' + l['what'])
                    ctx.state(algo, l['what'], A.mps.pos, tuple(A.mps.D))
                    if k < len(case['segs']) - 1:
                        watched += 1
            ctx.log(k, tuple(A.mps.D), A.mps.pos, '%.6g' % ham.energy(v).real)
            ctx.simtime += s['n']
        ctx.count('algo:' + algo)
        ctx.nontrivial = watched >= 2


def min_gap(v, th):
    g = 1.0
    for b in range(1, len(v.shape)):
        s = dense.schmidt(v, b)
        g = min(g, float(np.min(np.abs(np.log10((s + 1e-300) / max(th, 1e-14))))))
    return g


def observe(L, A, other, oref, l, v, ctx, case, ham, sd):
    mps = A.mps
    N = len(mps)
    d = mps.d
    s = l['s']
    what = l['what']
    site = hist.site_of(l['x'], N)
    bond = hist.bond_of(l['x'], N)
    cplx = s % 2 == 0

    def num(r, e, scale, name):
        need(hist.close_num(r, e, 1e-7, max(scale, 1e-300)), 'observed value', '%s: %s, state vector gives %s' % (name, r, e))
    if what == 'local':
        O = gen.random_op(s, d[site], cplx)
        num(mps.measureLocal(O, site), dense.expect(v, [(site, O)]), dense.norm(O), 'measureLocal at %d' % site)
    elif what in ('list', 'englocal'):
        O = [gen.random_op(s + i, d[i], cplx) for i in range(N)]
        r = (mps.measureList if what == 'list' else A.measureLocal)(O)
        for i in range(N):
            num(r[i], dense.expect(v, [(i, O[i])]), dense.norm(O[i]), what)
    elif what == 'corr':
        sites = sorted([hist.site_of(l['x'], N), hist.site_of(l['y'], N)])
        O = [gen.random_op(s + i, d[x], cplx) for i, x in enumerate(sites)]
        num(mps.measure(O, sites), dense.expect(v, list(zip(sites, O))), dense.norm(O[0]) * dense.norm(O[1]), 'measure %s' % sites)
    elif what == 'melem':
        O = [gen.random_op(s + i, d[i], cplx) for i in range(N)]
        r = np.asarray(mps.measureMatrixElementList(other, O)).ravel()
        for i in range(N):
            num(r[i], np.vdot(oref, dense.apply_sites(v, O[i], i)), dense.norm(O[i]) * dense.norm(oref), 'matrix element')
    elif what == 'overlap':
        num(mps.dot(other), np.vdot(oref, v), dense.norm(oref), 'overlap')
    elif what == 'selfoverlap':
        num(mps.dot(mps), dense.norm(v) ** 2, 1.0, 'norm')
    elif what == 'schmidt':
        x = np.sort(np.abs(np.asarray(mps.getSchmidt(bond))))[::-1]
        e = dense.schmidt(v, bond) / dense.norm(v)
        m = max(len(x), len(e))
        x, e = np.concatenate([x, np.zeros(m - len(x))]), np.concatenate([e, np.zeros(m - len(e))])
        need(dense.norm(x - e) < 1e-7, 'observed value', 'Schmidt values at bond %d: %s, state vector gives %s' % (bond, x[:5], e[:5]))
    elif what == 'position':
        mps.position(bond)
    elif what == 'engposition':
        A.update()
        A.position(bond)
    elif what == 'copy':
        mps.copy()
    elif what == 'workcopy':
        c = mps.copy()
        c.position(bond)
        c.applyOneSiteGate(gen.random_op(s, d[site], cplx), site)
        if N > 2:
            c.truncate(0.1, D=2)
    elif what == 'canonizecopy':
        c = mps.copy()
        c.canonize()
    elif what == 'arith':
        c = mps + other
        c = c - mps * 2.0
        c *= 3.0
    elif what == 'deepcopy':
        c = copy.deepcopy(A)
        c.mps.position(bond)
        call(c, case, dict(case['segs'][0], n=1), None, 0)
    elif what == 'engsave':
        A.save('saved')
    elif what == 'mpssave':
        mps.save('savedmps')
    elif what == 'print':
        str(mps), repr(mps), mps.D, mps.d, mps.Dmax, mps.tensors, list(iter(mps)), len(mps), mps.tolist()
    elif what == 'engtruncate0':
        # truncation that has nothing to discard
        A.truncateMPS(1e-13)
    elif what == 'workother':
        other_pos = other.pos
        other.dot(mps)
        need(other.pos == other_pos, 'observation changed the state', 'overlap moved the center of its argument')


def simplify(case):
    for c in evo_simplify(case):
        c['other']['d'] = c['spec']['state']['d']
        yield c
    for i, s in enumerate(case['segs']):
        for key, val in (('n', 1), ('D', None), ('th', 1e-14), ('cp', None), ('verbose', 0)):
            if s[key] != val:
                c = copy.deepcopy(case)
                c['segs'][i][key] = val
                yield c
