"""Reference statistics, computed from the samples in extended precision."""
from __future__ import annotations

import math

import numpy as np

LD = np.longdouble


def reference(samples):
    """Statistics of (value, weight) pairs, and the scale of the values."""
    if not samples:
        return {'count': 0, 'sum_of_weights': 0.0, 'sum': 0.0,
                'mean': math.nan, 'min': math.nan, 'max': math.nan,
                'mom2': 0.0, 'mom3': 0.0, 'mom4': 0.0, 'scale': 0.0,
                'weight': 0.0, 'flat': True}
    v = np.array([s[0] for s in samples], dtype=LD)
    w = np.array([s[1] for s in samples], dtype=LD)
    total = w.sum()
    mean = (v * w).sum() / total
    d = v - mean
    return {'count': len(samples), 'sum_of_weights': float(total),
            'sum': float((v * w).sum()), 'mean': float(mean),
            'min': float((v * w).min()), 'max': float((v * w).max()),
            'mom2': float((w * d**2).sum()), 'mom3': float((w * d**3).sum()),
            'mom4': float((w * d**4).sum()),
            'scale': float(np.abs(v).max()), 'weight': float(w.max()),
            'spread': float(v.max() - v.min()), 'flat': v.min() == v.max()}


def compare(got, ref, eps, ddof=0):
    """First difference between statistics and their reference.

    got: name -> number, for any subset of the statistics.
    """
    n = max(ref['count'], 1)
    total, scale = ref['sum_of_weights'], ref['scale']
    rel = 40 * eps * n

    def close(name, expected, tolerance):
        if name not in got:
            return None
        value = float(got[name])
        if math.isnan(expected):
            good = math.isnan(value)
        else:
            good = abs(value - expected) <= tolerance
        return None if good else f'{name} is {value}, expected {expected}'

    heavy = scale * max(ref['weight'], 1.0)
    mean = ref['mean']
    checks = [
        ('count', ref['count'], 0), ('sum_of_weights', total, rel * total),
        ('sum', ref['sum'], rel * scale * total), ('mean', mean, rel * scale),
        ('min', ref['min'], 4 * eps * heavy),
        ('max', ref['max'], 4 * eps * heavy)]
    if total - ddof <= 0:
        if abs(total - ddof) < 1e-3 and ref['count'] and total != round(total):
            variance = None
        else:
            variance = math.nan
    elif abs(total - ddof) < 1e-3:
        variance = None
    else:
        variance = ref['mom2'] / (total - ddof)
    if ref['count'] == 0:
        spread = 0.0
    else:
        spread = ref['spread']
    # The error of the second moment is relative to the rounding of the values.
    noise = rel * spread**2 + (rel * scale)**2 + rel * scale * spread
    if variance is not None:
        bound = 0.0 if math.isnan(variance) else noise * total / (total - ddof)
        checks.append(('variance', variance, bound))
        if 'std' in got and not math.isnan(variance):
            low = math.sqrt(max(variance - bound, 0))
            high = math.sqrt(variance + bound)
            if not low * (1 - rel) <= got['std'] <= high * (1 + rel):
                return f"std is {got['std']}, expected {math.sqrt(variance)}"
    for check in checks:
        problem = close(*check)
        if problem:
            return problem
    if ref['flat']:
        for name in ('skewness', 'kurtosis'):
            # Equal samples may differ by a rounding error after a merge.
            if name in got and ref['count'] == 0:
                problem = close(name, math.nan, 0)
                if problem:
                    return problem
        return None
    condition = scale / math.sqrt(ref['mom2'] / total)
    lopsided = spread / math.sqrt(ref['mom2'] / total)
    error = rel * condition * lopsided**2
    if error < 1e-3:
        problem = close('skewness', math.sqrt(total) * ref['mom3']
                        / ref['mom2']**1.5, 20 * error * lopsided)
        problem = problem or close(
            'kurtosis', total * ref['mom4'] / ref['mom2']**2 - 3,
            50 * error * lopsided**2)
        if problem:
            return problem
    return None
