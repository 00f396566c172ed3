"""Independent evaluation of the documented free energy and its derivatives (python floats)."""
import math

import numpy as np


def xlogx(x):
    return 0.0 if x == 0 else x * math.log(x)


def f(phi, chi, l):
    n = len(phi)
    return math.fsum([xlogx(phi[i]) / l[i] for i in range(n)]
                     + [0.5 * chi[i][j] * phi[i] * phi[j] for i in range(n) for j in range(n)])


def jac(phi, chi, l):
    n = len(phi)
    out = []
    for i in range(n):
        ent = -math.inf if phi[i] == 0 else (math.log(phi[i]) + 1.0) / l[i]
        out.append(ent + math.fsum(0.5 * (chi[i][j] + chi[j][i]) * phi[j] for j in range(n)))
    return out


def hess(phi, chi, l):
    n = len(phi)
    return [[0.5 * (chi[i][j] + chi[j][i]) + ((1.0 / (l[i] * phi[i]) if phi[i] else math.inf) if i == j else 0.0)
             for j in range(n)] for i in range(n)]


def mu(phi, chi, l):
    """chemical potential by volume: f - sum_j phi_j df/dphi_j + df/dphi_i"""
    n = len(phi)
    inner = math.fsum([xlogx(phi[i]) / l[i] + phi[i] / l[i] for i in range(n)]
                      + [chi[i][j] * phi[i] * phi[j] for i in range(n) for j in range(n)])
    e = f(phi, chi, l)
    return [e - inner + j for j in jac(phi, chi, l)]


def reduced(vec_or_mat, index):
    a = np.array(vec_or_mat, float)
    n = len(a)
    index %= n
    keep = [i for i in range(n) if i != index]
    if a.ndim == 1:
        return np.array([a[i] - a[index] for i in keep])
    return np.array([[a[i, j] - a[index, j] - a[i, index] + a[index, index] for j in keep] for i in keep]).reshape(n - 1, n - 1)


def unstable(phi, chi, l, conserved):
    """number of negative eigenvalues; None if one is too close to zero to decide"""
    h = np.array(hess(phi, chi, l))
    if conserved:
        h = reduced(h, 0)
        if h.size == 0:
            return 0
    ev = np.linalg.eigvalsh(h)
    if np.any(np.abs(ev) < 1e-9 * max(1.0, np.abs(ev).max())):
        return None
    return int((ev < 0).sum())
