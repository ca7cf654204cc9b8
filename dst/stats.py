"""Exact tail tests with negligible false-alarm rates."""
from __future__ import annotations

import math

import numpy as np
from scipy import stats as ss


def binom_p(k, n, p):
    """Two-sided tail probability (doubled smaller tail)."""
    p = min(1.0, max(0.0, float(p)))
    lo = ss.binom.cdf(k, n, p)
    hi = ss.binom.sf(k - 1, n, p)
    return min(1.0, 2 * min(lo, hi))


def freq_deviation(counts, probs, n, alpha):
    """The first outcome whose count cannot be a sample of its probability, or None."""
    worst = None
    for i, (k, p) in enumerate(zip(counts, probs)):
        if p < 1e-11:
            if k:
                return i, int(k), p, 0.0
            continue
        v = binom_p(k, n, p)
        if worst is None or v < worst[3]:
            worst = (i, int(k), float(p), float(v))
    if worst is not None and worst[3] < alpha:
        return worst
    return None


def chi2_stat(counts, probs, n):
    """Pearson statistic with cells of small expectation pooled: (statistic, degrees of freedom)."""
    cells, po, pe = [], 0.0, 0.0
    for k, p in zip(counts, probs):
        e = n * p
        if e >= 20:
            cells.append((k, e))
        else:
            po += k
            pe += e
    if pe >= 20:
        cells.append((po, pe))
    x = sum((k - e) ** 2 / e for k, e in cells)
    return float(x), max(0, len(cells) - (1 if pe >= 20 or pe < 1e-9 else 0))


def chi2_bad(counts, probs, n, alpha):
    x, dof = chi2_stat(counts, probs, n)
    if dof < 1:
        return None
    p = ss.chi2.sf(x * 0.6, dof)  # slack for the discreteness of the counts
    return (x, dof, float(p)) if p < alpha else None


def pairs_threshold(n, s2, s3=None):
    """Bound on the number of equal pairs among n independent samples."""
    if s3 is None:
        s3 = s2 ** 1.5
    e = n * (n - 1) / 2 * s2
    var = n * (n - 1) / 2 * max(0.0, s2 - s2 * s2) + n * (n - 1) * (n - 2) * max(0.0, s3 - s2 * s2)
    return e + 9 * math.sqrt(var) + 12


def equal_pairs(xs):
    _, c = np.unique(xs, return_counts=True)
    return int(sum(k * (k - 1) // 2 for k in c))
