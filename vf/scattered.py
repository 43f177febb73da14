"""Published formulas of the interpolation of scattered data."""
from __future__ import annotations

import math

import numpy as np

ADJUSTABLE = ('gaussian', 'inverse_multiquadric', 'multiquadric')
RBF = ('cubic', 'gaussian', 'inverse_multiquadric', 'linear', 'multiquadric',
       'thin_plate')
WINDOWS = ('blackman', 'blackman_harris', 'boxcar', 'flat_top', 'gaussian',
           'hamming', 'lanczos', 'nuttall', 'parzen', 'parzen_swot')
COVARIANCES = ('cauchy', 'exponential', 'gaussian', 'linear', 'matern_12',
               'matern_32', 'matern_52', 'spherical', 'whittle_matern')


def kernel(name, r, epsilon):
    r = np.asarray(r, 'f8')
    e = r / epsilon if epsilon is not None else None
    if name == 'cubic':
        return r**3
    if name == 'gaussian':
        return np.exp(-e**2)
    if name == 'inverse_multiquadric':
        return 1 / np.sqrt(1 + e**2)
    if name == 'linear':
        return r
    if name == 'multiquadric':
        return np.sqrt(1 + e**2)
    safe = np.where(r > 0, r, 1.0)
    return np.where(r > 0, r**2 * np.log(safe), 0.0)


def rbf(name, between, to, values, epsilon=None, smooth=0.0):
    """Value and condition number."""
    n = len(values)
    if epsilon is None and name in ADJUSTABLE:
        total = sum(between[i, j] for i in range(n) for j in range(i + 1, n))
        epsilon = total / (n * (n - 1) / 2)
    system = kernel(name, between, epsilon) - smooth * np.eye(n)
    cond = np.linalg.cond(system)
    if not np.isfinite(cond) or cond > 1e13:
        return None, math.inf
    weights = np.linalg.solve(system, values)
    value = float(kernel(name, to, epsilon) @ weights)
    size = float(np.abs(kernel(name, to, epsilon)) @ np.abs(weights))
    return value, cond * max(size, 1e-300)


def window(name, d, r, arg=None):
    """Weight of a neighbour at a distance d <= r."""
    t = math.pi * (d + r) / r
    if name == 'boxcar':
        return 1.0
    if name == 'blackman':
        return (7938 - 9240 * math.cos(t) + 1430 * math.cos(2 * t)) / 18608
    if name == 'blackman_harris':
        return (0.35875 - 0.48829 * math.cos(t) + 0.14128 * math.cos(2 * t) -
                0.01168 * math.cos(3 * t))
    if name == 'flat_top':
        return (0.21557895 - 0.41663158 * math.cos(t) +
                0.277263158 * math.cos(2 * t) - 0.083578947 * math.cos(3 * t) +
                0.006947368 * math.cos(4 * t))
    if name == 'gaussian':
        return math.exp(-0.5 * (d / arg)**2)
    if name == 'hamming':
        return 0.53836 - 0.46164 * math.cos(t)
    if name == 'lanczos':
        arg = 1 if arg is None else arg
        return float(np.sinc(d / r) * np.sinc(d / (arg * r)))
    if name == 'nuttall':
        return (0.3635819 - 0.4891775 * math.cos(t) +
                0.1365995 * math.cos(2 * t))
    ratio = d / r
    if name == 'parzen':
        if d <= (2 * r + (arg or 0)) / 4:
            return 1 - 6 * ratio**2 * (1 - ratio)
        return 2 * (1 - ratio)**3
    if d <= r / 2:
        return 1 - 6 * ratio**2 + 6 * ratio**3
    return 2 * (1 - ratio)**3


def covariance(name, d, sigma, alpha):
    t = np.asarray(d, 'f8') / alpha
    if name == 'cauchy':
        c = 1 / (1 + t**2)
    elif name in ('exponential', 'matern_12'):
        c = np.exp(-t)
    elif name == 'gaussian':
        c = np.exp(-t**2)
    elif name == 'linear':
        c = np.where(t <= 1, 1 - t, 0.0)
    elif name in ('matern_32', 'whittle_matern'):
        c = (1 + math.sqrt(3) * t) * np.exp(-math.sqrt(3) * t)
    elif name == 'matern_52':
        c = (1 + math.sqrt(5) * t + 5 * t**2 / 3) * np.exp(-math.sqrt(5) * t)
    else:
        c = np.where(t <= 1, 1 - 1.5 * t + 0.5 * t**3, 0.0)
    return sigma**2 * c


def kriging(name, between, to, values, sigma, alpha):
    """Value and error bound in units of rounding."""
    system = covariance(name, between, sigma, alpha)
    cond = np.linalg.cond(system)
    if not np.isfinite(cond) or cond > 1e13:
        return None, math.inf
    weights = np.linalg.solve(system, covariance(name, to, sigma, alpha))
    value = float(values @ weights)
    return value, cond * float(np.abs(values) @ np.abs(weights) +
                               np.abs(values).max())


def neighbours(distance, k, tol):
    """Indices of the k nearest samples in order, None if ambiguous."""
    order = np.argsort(distance, kind='stable')
    kept = order[:k]
    if len(order) > k and distance[order[k]] - distance[order[k - 1]] <= tol:
        return None
    return kept


def surrounded(point, chosen, tol):
    """True if the point is in the box of the others, None if ambiguous."""
    if not len(chosen):
        return False
    low, high = chosen.min(0), chosen.max(0)
    if (np.abs(point - low) <= tol).any() or (
            np.abs(point - high) <= tol).any():
        return None
    return bool(((point > low) & (point < high)).all())
