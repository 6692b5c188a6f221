"""Shared pieces of the operation-history checks."""
import numpy as np
from . import dense, gen
from .core import Violation
from .numseam import SEAM


def svd_faults(rng, density=None, n=60):
    """call numbers of decompositions that fail; never two in a row"""
    p = density if density is not None else rng.choice([0, 0, 0.1, 0.3, 0.45])
    out, last = [], -5
    for k in range(n):
        if k - last >= 2 and rng.random() < p:
            out.append(k)
            last = k
    return out


def arm_svd(faults):
    plan, last = {}, -5
    for k in sorted(set(int(f) for f in faults)):
        if k - last >= 2:
            plan[k] = 'LinAlgError'
            last = k
    SEAM.plan['svd'] = plan


def site_of(x, N):
    return min(N - 1, int(x * N))


def bond_of(x, N):
    return min(N, int(x * (N + 1)))


def need(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def check_state(mps, ref, tol, what, kind='state changed'):
    v = dense.vec(mps)
    if not dense.close(v, ref, tol):
        raise Violation(kind, '%s: state vector deviates by %s' % (what, dense.dev(v, ref)))
    return v


def check_gauge(mps, what, tol=1e-8):
    p = mps.pos
    N = len(mps)
    for n, t in enumerate(mps.tensors):
        d = dense.left_orth_dev(t) if n < p else dense.right_orth_dev(t)
        if not d <= tol * max(1, t.shape[0]):
            raise Violation('gauge', '%s: tensor %d not %s-orthonormal (deviation %.2e) with center at bond %d' %
                            (what, n, 'left' if n < p else 'right', d, p))
    D = mps.D
    ts = mps.tensors
    for n in range(N - 1):
        # the center matrix need not be square
        need(n + 1 == p or ts[n].shape[1] == ts[n + 1].shape[0], 'gauge', '%s: bond %d has dimensions %s and %s' % (
            what, n + 1, ts[n].shape, ts[n + 1].shape))
    need(len(D) == N + 1, 'gauge', '%s: len(D)' % what)


def ops_for(spec, d, cplx):
    """random one-site operators from integer seeds"""
    return [gen.random_op(s, x, cplx) for s, x in zip(spec, d)]


def close_num(a, b, tol, scale):
    return bool(np.isfinite(a)) and abs(a - b) <= tol * scale


def summarise(ctx, mps, what):
    ctx.state(what, mps.pos, tuple(mps.D))
    ctx.log(what, mps.pos, tuple(mps.D))


def note_faults(ctx):
    n = 0
    for k, v in SEAM.fired.items():
        ctx.fault(k, v)
        n += v
    return n


def close_dist(a, b):
    return dense.norm(np.asarray(a) - np.asarray(b))


def bonds(mps):
    """bond dimensions; at the center bond the larger side of the center matrix"""
    ts = mps.tensors
    return [ts[0].shape[0]] + [max(ts[n].shape[1], ts[n + 1].shape[0]) for n in range(len(ts) - 1)] + [ts[-1].shape[1]]
