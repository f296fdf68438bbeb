"""Reference model: the documented estimators, written directly.

Everything is computed in double precision from plain NumPy arrays, without
any dcor code.  Each function returns an ``Exp``: the value together with an
absolute tolerance for an implementation that evaluates the same formula in a
different order (or None where rounding makes the value meaningless).
"""
from __future__ import annotations

import numpy as np

from .probes import apply_avg

EPS = {"f8": 1e-11, "f4": 3e-4}


class Exp:
    """Expected value: array/scalar or tuple of Exp, with tolerance."""

    __slots__ = ("value", "tol", "shape", "skip")

    def __init__(self, value, tol, skip=False):
        self.value = np.asarray(value, dtype=float)
        self.tol = tol
        self.skip = skip
        self.shape = self.value.shape


def d2(x):
    x = np.asarray(x, dtype=float)
    return x[:, None] if x.ndim == 1 else x


def dist(x, y=None, exponent=1):
    x = d2(x)
    y = x if y is None else d2(y)
    diff = x[:, None, :] - y[None, :, :]
    sq = np.sum(diff * diff, axis=-1)
    return np.sqrt(sq) if exponent == 1 else sq ** (exponent / 2)


def _max(a):
    a = np.asarray(a, dtype=float)
    return float(np.max(np.abs(a))) if a.size else 0.0


def dist_scale(x, exponent=1):
    """Magnitude of the quantities fast algorithms subtract."""
    return max(_max(dist(x, None, exponent)), 2 * _max(x) if exponent == 1 else 0,
               1e-300)


def dcenter(a):
    r = a.mean(axis=1)
    return a - r[:, None] - r[None, :] + r.mean()


def ucenter(a):
    n = a.shape[0]
    r = a.sum(axis=1)
    out = a - r[:, None] / (n - 2) - r[None, :] / (n - 2) \
        + r.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(out, 0.0)
    return out


def uprod(a, b):
    n = a.shape[0]
    return float(np.sum(a * b)) / (n * (n - 3))


def dcov_sqr(x, y, exponent=1, unbiased=False):
    a, b = dist(x, None, exponent), dist(y, None, exponent)
    if unbiased:
        return uprod(ucenter(a), ucenter(b))
    return float(np.mean(dcenter(a) * dcenter(b)))


def dcov_tol(x, y, exponent, eps, unbiased):
    f = 30.0 if unbiased and len(d2(x)) < 6 else 10.0
    return f * eps * dist_scale(x, exponent) * dist_scale(y, exponent)


def stats_sqr(x, y, exponent=1, unbiased=False, eps=1e-11):
    """(cov, cor, varx, vary) squared, with tolerances."""
    c = dcov_sqr(x, y, exponent, unbiased)
    vx = dcov_sqr(x, x, exponent, unbiased)
    vy = dcov_sqr(y, y, exponent, unbiased)
    tc = dcov_tol(x, y, exponent, eps, unbiased)
    tx = dcov_tol(x, x, exponent, eps, unbiased)
    ty = dcov_tol(y, y, exponent, eps, unbiased)
    cor = correlation(c, vx, vy, tc, tx, ty)
    return Exp(c, tc), cor, Exp(vx, tx), Exp(vy, ty)


def correlation(c, vx, vy, tc, tx, ty):
    # Relative conditioning of the denominator.
    if abs(vx) <= 200 * tx + 1e-200 or abs(vy) <= 200 * ty + 1e-200:
        return Exp(0.0, 0.0, skip=True)
    den = np.sqrt(abs(vx * vy))
    rel = 0.5 * (tx / abs(vx) + ty / abs(vy))
    return Exp(c / den, tc / den + abs(c / den) * rel * 2 + 1e-12)


def root(e):
    """Expected value of a clipped square root."""
    if e.skip:
        return Exp(0.0, 0.0, skip=True)
    v = float(e.value)
    hi = np.sqrt(max(v + e.tol, 0.0))
    lo = np.sqrt(max(v - e.tol, 0.0))
    mid = np.sqrt(max(v, 0.0))
    return Exp(mid, max(hi - mid, mid - lo) + 1e-12 * mid)


def energy(dxx, dyy, dxy, avg=None, ustat=False):
    if ustat:
        dxx = dxx[np.triu_indices(dxx.shape[0], 1)]
        dyy = dyy[np.triu_indices(dyy.shape[0], 1)]
    return float(2 * apply_avg(avg, dxy) - apply_avg(avg, dxx)
                 - apply_avg(avg, dyy))


def energy_distance(x, y, exponent=1, avg=None, ustat=False):
    return energy(dist(x, None, exponent), dist(y, None, exponent),
                  dist(x, y, exponent), avg, ustat)


def energy_stat_matrix(d, sizes, avg=None, ustat=False):
    starts = np.concatenate(([0], np.cumsum(sizes)[:-1])).astype(int)
    total = 0.0
    for i in range(len(sizes)):
        for j in range(i + 1, len(sizes)):
            si = slice(starts[i], starts[i] + sizes[i])
            sj = slice(starts[j], starts[j] + sizes[j])
            n, m = sizes[i], sizes[j]
            total += n * m / (n + m) * energy(d[si, si], d[sj, sj], d[si, sj],
                                              avg, ustat)
    return total


def af_scale(x):
    x = d2(x)
    xc = x - x.mean(axis=0, keepdims=True)
    cov = xc.T @ xc / (x.shape[0] - 1)
    w, v = np.linalg.eigh(cov)
    if np.min(w) < 1e-6 * np.max(w):
        return None
    return x @ (v * (1 / np.sqrt(w))) @ v.T / (x.shape[0] - 1)


class PermTest:
    """A permutation test: observed statistic and p-value over a stream."""

    def __init__(self, matrix, stat, eps, scale, exact):
        self.m, self.stat, self.exact = matrix, stat, exact
        self.observed = float(stat(matrix))
        self.tol = eps * scale

    def interval(self, perms):
        """(lowest, highest) number of strictly greater resamples."""
        lo = hi = 0
        t = 0.0 if self.exact else self.tol
        for p in perms:
            p = np.asarray(p)
            s = float(self.stat(self.m[np.ix_(p, p)]))
            if s > self.observed + t:
                lo += 1
            if s > self.observed - t or (t == 0.0 and s > self.observed):
                hi += 1
        if t == 0.0:
            hi = lo
        return lo, hi


def _pow2(n):
    return n > 0 and n & (n - 1) == 0


def _small_ints(*arrs):
    for a in arrs:
        a = np.asarray(a, dtype=float)
        if not any(a.size == 0 or (np.all(a * f == np.round(a * f))
                                   and np.max(np.abs(a * f)) <= 64)
                   for f in (1.0, 2.0 ** -20, 2.0 ** 20)):
            return False
    return True


def _near_ties(a):
    """Small multiples of 2**-23."""
    a = np.asarray(a, dtype=float) * 2.0 ** 23
    return bool(np.all(a == np.round(a)) and np.all(np.abs(a) <= 2.0 ** 25))


def _onecol(*arrs):
    return all(np.ndim(a) == 1 or np.shape(a)[1] == 1 for a in arrs)


def dcov_test(x, y, exponent=1, eps=1e-11):
    x, y = d2(x), d2(y)
    n = x.shape[0]
    a = dcenter(dist(x, None, exponent))
    b = dcenter(dist(y, None, exponent))
    exact = exponent == 1 and _pow2(n) and _onecol(x, y) and (
        n <= 64 and _small_ints(x, y)
        or n <= 8 and _near_ties(x) and _small_ints(y))
    scale = n * max(_max(a), 1e-300) * max(_max(b), 1e-300) + \
        n * 1e-3 * dist_scale(x, exponent) * dist_scale(y, exponent) * 1e-3
    return PermTest(a, lambda m: n * float(np.mean(m * b)), eps, scale, exact)


def pdcov_test(x, y, z, exponent=1, eps=1e-11):
    n = d2(x).shape[0]
    a, b, c = (ucenter(dist(v, None, exponent)) for v in (x, y, z))
    cc = uprod(c, c)
    scc = max(_max(c), 1e-300) ** 2
    if not np.any(c):                 # constant z: nothing is projected out
        pa, pb = a, b
    elif cc < 1e-4 * scc:
        return None
    else:
        pa = a - uprod(a, c) / cc * c
        pb = b - uprod(b, c) / cc * c
    scale = 100 * n * (max(_max(a), dist_scale(x, exponent))
                       * max(_max(b), dist_scale(y, exponent)))
    return PermTest(pa, lambda m: n * uprod(m, pb), eps, scale, False)


def energy_test(samples, exponent=1, avg=None, ustat=False, eps=1e-11):
    samples = [d2(s) for s in samples]
    sizes = [s.shape[0] for s in samples]
    pooled = np.concatenate(samples)
    d = dist(pooled, None, exponent)
    pw = all(_pow2(s) and s == sizes[0] and s <= 32 for s in sizes)
    exact = exponent == 1 and pw and _onecol(pooled) and (
        _small_ints(pooled) or sizes[0] <= 8 and _near_ties(pooled)) \
        and (not ustat or avg in ("max", "min+max"))
    scale = max(_max(d), 1e-300) * sum(sizes) * len(sizes)
    return PermTest(d, lambda m: energy_stat_matrix(m, sizes, avg, ustat), eps,
                    scale, exact)
