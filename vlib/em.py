"""Explicit (slow) forms of the staggered difference equations."""
import itertools

import numpy as np


def cplx(rng, shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def at(f, idx, shape, phase, shear):
    """Value of the quasi-periodic extension of f at any integer index."""
    idx = list(idx)
    fac = 1.0
    for a in range(3):
        # Only one period is ever crossed per axis.
        while idx[a] >= shape[a]:
            idx[a] -= shape[a]
            fac = fac * np.exp(-1j * phase[a])
            for b in range(3):
                idx[b] += int(shear[a][b])
        while idx[a] < 0:
            idx[a] += shape[a]
            fac = fac * np.exp(1j * phase[a])
            for b in range(3):
                idx[b] -= int(shear[a][b])
    # The shear may have moved an earlier axis out of range again.
    for a in range(3):
        while idx[a] >= shape[a]:
            idx[a] -= shape[a]
            fac = fac * np.exp(-1j * phase[a])
        while idx[a] < 0:
            idx[a] += shape[a]
            fac = fac * np.exp(1j * phase[a])
    return fac * f[tuple(idx)]


def diff(f, axis, d, forward, phase, shear):
    shape = f.shape
    out = np.zeros(shape, complex)
    for ijk in itertools.product(*[range(n) for n in shape]):
        nb = list(ijk)
        nb[axis] += 1 if forward else -1
        v = at(f, nb, shape, phase, shear)
        out[ijk] = ((v - f[ijk]) if forward else
                    (f[ijk] - v)) / d[axis][ijk[axis]]
    return out


def curl(f, d, forward, phase, shear):
    D = lambda g, a: diff(g, a, d, forward, phase, shear)
    return [D(f[2], 1) - D(f[1], 2), D(f[0], 2) - D(f[2], 0),
            D(f[1], 0) - D(f[0], 1)]


def phase(d, k, shear):
    L = [np.sum(x) for x in d]
    return [L[a] * k[a] - sum(shear[a][b] * d[b][0] * k[b] for b in range(3))
            for a in range(3)]
