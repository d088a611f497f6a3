"""Reference model of the moment-tensor-potential bookkeeping and radial bases (independent of the code under test)."""
from collections import Counter
import numpy as np
import native

SOURCES = ["source/descriptor/mtp/src/mtpLevel.cc", "source/descriptor/mtpr/src/mtpParam.cc"]


def build():
    return native.build("mtp.cpp", extra_sources=SOURCES)


def level(p):
    return 2 + 4 * p[0] + p[1]


_multi = {}


def multisets(L):
    """all multisets of pairs (mu, nu) whose levels add up to L, as sorted tuples"""
    if L not in _multi:
        ps = sorted(((m, n) for m in range(L) for n in range(L) if level((m, n)) <= L), key=lambda p: (level(p), p))
        out = []

        def rec(rem, i, acc):
            if rem == 0:
                out.append(tuple(sorted(acc)))
                return
            for k in range(i, len(ps)):
                if level(ps[k]) > rem:
                    break
                rec(rem - level(ps[k]), k, acc + [ps[k]])
        rec(L, 0, [])
        _multi[L] = out
    return _multi[L]


def pairwise(nus):
    return all(v % 2 == 0 for k, v in Counter(nus).items() if k)


def contracts(comb):
    """can the tensors of the combination be contracted to a scalar by the rules of the library?"""
    nus = sorted((n for _, n in comb), reverse=True)
    if not nus:
        return False
    return nus[0] == sum(nus[1:]) or pairwise(nus)


def cheb(n, x):
    """T_0..T_{n-1} and their derivatives with respect to x (coefficients, not recurrences)"""
    t, d = [], []
    for k in range(n):
        c = np.polynomial.chebyshev.cheb2poly([0] * k + [1])
        t.append(np.polynomial.polynomial.polyval(x, c))
        d.append(np.polynomial.polynomial.polyval(x, np.polynomial.polynomial.polyder(c)) if k else 0.0)
    return np.array(t), np.array(d)


def switch(r, rc, rs, inner):
    if r < rs:
        return float(inner), 0.0
    if r >= rc:
        return 0.0, 0.0
    u = (r - rs) / (rc - rs)
    return 1 - u ** 3 * (10 - 15 * u + 6 * u * u), -30 * u * u * (1 - u) ** 2 / (rc - rs)
