"""Smooth-edition environment matrix: independent reference (values by formula, derivatives by complex-step differentiation)."""
import numpy as np


def s_of(r, rc, rs):
    """s(r), r complex or real"""
    x = np.real(r)
    u = (r - rs) / (rc - rs)
    sw = np.where(x < rs, 1.0 + 0 * r, np.where(x < rc, 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5, 0 * r))
    return sw / r


def rows(vec, rc, rs):
    """(n,3) vectors -> values (n,4), derivatives with respect to the vector (n,4,3)"""
    vec = np.asarray(vec, float).reshape(-1, 3)

    def val(v):
        r = np.sqrt((v * v).sum(-1))
        s = s_of(r, rc, rs)
        return np.concatenate([s[:, None], (s / r)[:, None] * v], 1)
    v0 = val(vec)
    d = np.zeros((len(vec), 4, 3))
    h = 1e-30
    for k in range(3):
        w = vec.astype(complex)
        w[:, k] += 1j * h
        d[:, :, k] = np.imag(val(w)) / h
    return v0, d


def joint(vec, rc, rs, sign):
    v, d = rows(vec, rc, rs)
    return np.concatenate([v, sign * d.reshape(-1, 12)], 1)
