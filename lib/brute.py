"""Brute-force periodic neighbours, independent of /repo."""
import itertools
import numpy as np
from gens import lat_array, frac_array


def shifts(s):
    h = [(k - 1) // 2 for k in s]
    return np.array(list(itertools.product(*[range(-x, x + 1) for x in h])), int)


def all_shifts(r):
    return np.array(list(itertools.product(range(-r, r + 1), repeat=3)), int)


def pair_table(c, sh):
    """d[i, j, k]: vector from atom i to atom j shifted by sh[k]"""
    lat = lat_array(c["lat"]); cart = frac_array(c) @ lat
    T = sh @ lat
    return cart[None, :, None, :] + T[None, None, :, :] - cart[:, None, None, :]


def range_for(lat, rmax, spread=0.0):
    """number of shifts per axis needed to see everything within rmax (+ spread of the coordinates in cells)"""
    h = 1.0 / np.linalg.norm(np.linalg.inv(lat), axis=0)      # distances between lattice planes
    return [int(np.ceil(rmax / x + spread)) + 1 for x in h]


def neighbours(c, rcut, pbc=(1, 1, 1)):
    """all (i, j, shift, vec, dist) with 0 < dist, dist < rcut"""
    lat = lat_array(c["lat"]); fr = frac_array(c)
    spread = (fr.max(0) - fr.min(0)).max() if len(fr) else 0
    R = [r if p else 0 for r, p in zip(range_for(lat, rcut, spread), pbc)]
    sh = np.array(list(itertools.product(*[range(-x, x + 1) for x in R])), int)
    v = pair_table(c, sh)
    d = np.linalg.norm(v, axis=-1)
    return sh, v, d


def safe_rcut(d, rcut, eps=1e-6):
    """move rcut away from every distance in d"""
    d = np.asarray(d).reshape(-1)
    for _ in range(200):
        if not (np.abs(d - rcut) < eps).any():
            return rcut
        rcut += 2.3 * eps
    return rcut
