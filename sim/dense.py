"""Dense reference model: state vectors, operators, exact truncation, Trotter evolution."""
import numpy as np
import scipy.linalg as sla
from .core import Violation

_expm = sla.expm          # bound before the seams are installed


def expm(m):
    f = getattr(sla.expm, '__wrapped_real__', sla.expm)
    return f(m)


def rsvd(m):
    from . import numseam
    return (numseam.real_svd if numseam.ORIG else np.linalg.svd)(m, full_matrices=False)


def rqr(m):
    from . import numseam
    f = numseam.ORIG.get(('numpy.linalg', 'qr')) or np.linalg.qr
    return f(m)


def norm(x):
    return float(np.linalg.norm(np.asarray(x).ravel()))


def contract(tensors):
    """list of (Dl,Dr,d) tensors with outer dimension 1 -> tensor of shape (d0,d1,...)"""
    v = np.ones((1, 1), dtype=complex)
    dims = []
    for t in tensors:
        t = np.asarray(t)
        v = np.tensordot(v, t, ([1], [0]))          # (X, Dr, d)
        v = np.transpose(v, (0, 2, 1))
        v = v.reshape(v.shape[0] * v.shape[1], v.shape[2])
        dims.append(t.shape[2])
    if v.shape[1] != 1:
        raise Violation('shape', 'open boundary state ends in a bond of dimension %d' % v.shape[1])
    return v.reshape(dims)


def vec(mps):
    """state vector represented by an open-boundary MPS, including its norm factor"""
    return contract(mps.tolist()) * mps._Z


def dims_of(v):
    return v.shape


def apply_sites(v, op, site, nsites=1):
    """op: matrix acting on the combined index of nsites neighbouring sites, op[in, out]"""
    d = v.shape
    n = len(d)
    k = int(np.prod(d[site:site + nsites]))
    a = int(np.prod(d[:site])) if site > 0 else 1
    b = int(np.prod(d[site + nsites:])) if site + nsites < n else 1
    w = v.reshape(a, k, b)
    w = np.einsum('aib,ij->ajb', w, op.reshape(k, k))
    return w.reshape(d)


def expect(v, ops):
    """<v| prod ops |v>, ops: list of (site, op[in,out]) applied in the given order"""
    w = v
    for s, o in ops:
        w = apply_sites(w, o, s)
    return np.vdot(v, w)


def schmidt(v, bond):
    d = v.shape
    a = int(np.prod(d[:bond])) if bond > 0 else 1
    return rsvd(v.reshape(a, -1))[1]


def truncate_bond(v, bond, D=None, thresh=0.0):
    """keep the largest Schmidt components of a vector; returns vector (not renormalised), kept, all values"""
    d = v.shape
    a = int(np.prod(d[:bond])) if bond > 0 else 1
    u, s, w = rsvd(v.reshape(a, -1))
    k = int(np.sum(s > thresh))
    if D is not None:
        k = min(k, D)
    k = max(k, 1)
    return ((u[:, :k] * s[:k]).dot(w[:k])).reshape(d), k, s


def clear_cut(s, D, thresh, gap=1e-7):
    """is the choice of the kept Schmidt values beyond numerical doubt?"""
    s = np.asarray(s, dtype=float)
    scale = max(s[0], 1e-300)
    if thresh is not None and thresh > 1e-14 and np.any(np.abs(s - thresh) < max(1e-3 * thresh, 1e-12 * scale)):
        return False
    if D is not None and D < len(s):
        # values around the cut
        if s[D] > 1e-9 * scale and (s[D - 1] - s[D]) < gap * scale:
            return False
    return True


def mpo_matrix(mpo):
    """dense matrix M[in, out] of an open MPO"""
    m = None
    for n in range(len(mpo)):
        t = np.asarray(mpo[n], dtype=complex)
        if m is None:
            m = t[0]                                   # (Mr, in, out)
        else:
            m = np.einsum('aij,abkl->bikjl', m, t)
            b, i, k, j, l = m.shape
            m = m.reshape(b, i * k, j * l)
    assert m.shape[0] == 1
    return m[0]


def energy(v, M):
    w = v.ravel()
    return np.vdot(w, M.T.dot(w)) / np.vdot(w, w)


def two_site_terms(mpo):
    """Hamiltonian terms per bond, operator[in, out]; on-site terms are shared half-half between neighbouring bonds"""
    N = len(mpo)
    out = []
    for n in range(N - 1):
        a = np.asarray(mpo[n], dtype=complex)[-1]
        b = np.asarray(mpo[n + 1], dtype=complex)[:, 0]
        d1, d2 = a.shape[1], b.shape[1]
        h = np.zeros((d1 * d2, d1 * d2), dtype=complex)
        for s in range(a.shape[0]):
            w = 1.0
            if s == 0 and n != 0:
                w = 0.5
            if s == a.shape[0] - 1 and n + 1 != N - 1:
                w = 0.5
            h += w * np.kron(a[s], b[s])
        out.append(h)
    return out


def close(a, b, tol, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    if scale is None:
        scale = max(norm(b), 1e-12)
    return norm(a - b) <= tol * max(scale, 1e-300)


def dev(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    return '%.3e (norm %.6g, expected norm %.6g)' % (norm(a - b), norm(a), norm(b))


def fidelity_dev(a, b):
    """distance of two normalised vectors up to a phase"""
    na, nb = norm(a), norm(b)
    if na == 0 or nb == 0 or not np.isfinite(na):
        return 2.0
    o = abs(np.vdot(a.ravel(), b.ravel())) / (na * nb)
    return float(np.sqrt(max(0.0, 2 - 2 * min(1.0, o))))


def left_orth_dev(t):
    t = np.asarray(t)
    m = np.tensordot(t, np.conj(t), ([0, 2], [0, 2]))
    return norm(m - np.eye(m.shape[0]))


def right_orth_dev(t):
    t = np.asarray(t)
    m = np.tensordot(t, np.conj(t), ([1, 2], [1, 2]))
    return norm(m - np.eye(m.shape[0]))
