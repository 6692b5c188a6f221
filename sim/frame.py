"""Finite stretches of a chain whose two outer bonds are open legs: engines that are given boundary environments.

The outermost sites of a chain are represented by identity tensors, so that the outer bonds of the stretch are their
physical legs, and the environments given to the engine are the outermost tensors of the Hamiltonian."""
import numpy as np
from . import dense, gen


def spec(rng, maxdim=200):
    d = gen.pick_dims(rng, 4, 7, maxdim, (2, 2, 2, 3))
    h = gen.ham_spec(rng, len(d), kinds=['generic'])
    h['d'] = d
    return {'d': d, 'ham': h, 'D': rng.choice([64, 64, 2, 3]), 'cplx': rng.random() < 0.6, 'seed': rng.randrange(1 << 30)}


def bonds(sp):
    d = sp['d']
    return [min(int(np.prod(d[:n])), int(np.prod(d[n:])), sp['D'] if 1 < n < len(d) - 1 else 64) for n in range(1, len(d))]


def build(L, sp):
    """mps, mpo, lb, rb, Hamiltonian of the whole chain"""
    d = sp['d']
    ham = gen.Ham(L, sp['ham'])
    W = [np.array(ham.mpo[n]) for n in range(len(d))]
    D = bonds(sp)
    r = gen.rs(sp['seed'])
    ts = []
    for n in range(len(d) - 2):
        t = gen.rmat(r, D[n] * D[n + 1], d[n + 1], sp['cplx'] or sp['ham']['cplx'])
        ts.append(np.reshape(t, (D[n], D[n + 1], d[n + 1])))
    mps = L.MPS(ts)
    N = len(ts)
    mps.position(N)
    mps.position(0)
    mps.resetZ()
    return mps, L.H.MPO(W[1:-1]), np.transpose(W[0][0], (1, 2, 0)).copy(), np.transpose(W[-1][:, 0], (1, 2, 0)).copy(), ham


def vec(mps):
    """the state of the whole chain"""
    ts = mps.tolist()
    v = np.transpose(ts[0], (0, 2, 1))
    for t in ts[1:]:
        v = np.tensordot(v, np.transpose(t, (0, 2, 1)), ([v.ndim - 1], [0]))
    return v
