"""Reference fitting models, written from their definitions."""
from __future__ import annotations

import numpy as np

#: Least number of points.
LEAST = {'linear': 2, 'polynomial': 3, 'c_spline': 4, 'c_spline_periodic': 2,
         'akima': 5, 'akima_periodic': 5, 'steffen': 3, 'bicubic': 4}


class Ambiguous(Exception):
    """The definition is discontinuous for these data."""


def hermite(x0, x1, y0, y1, d0, d1, x):
    h = x1 - x0
    t = (x - x0) / h
    return ((1 + 2 * t) * (1 - t)**2 * y0 + t * (1 - t)**2 * h * d0 +
            t * t * (3 - 2 * t) * y1 + t * t * (t - 1) * h * d1)


def curvatures(xs, ys, periodic):
    """Second derivatives of the cubic spline, from a dense system."""
    n = len(xs)
    h = np.diff(xs)
    s = np.diff(ys) / h
    a = np.zeros((n, n))
    b = np.zeros(n)
    for i in range(1, n - 1):
        a[i, i - 1] = h[i - 1]
        a[i, i] = 2 * (h[i - 1] + h[i])
        a[i, i + 1] = h[i]
        b[i] = 6 * (s[i] - s[i - 1])
    if periodic:
        a[0, 0] += 2 * (h[0] + h[-1])
        a[0, 1] += h[0]
        a[0, n - 2] += h[-1]
        b[0] = 6 * (s[0] - s[-1])
        a[n - 1, n - 1] = 1
        a[n - 1, 0] = -1
    else:
        a[0, 0] = a[n - 1, n - 1] = 1
    return np.linalg.solve(a, b)


def akima_slopes(xs, ys, periodic):
    m = np.diff(ys) / np.diff(xs)
    if periodic:
        e = np.concatenate([m[-2:], m, m[:2]])
    else:
        e = np.concatenate([[3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m,
                            [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]])
    result = []
    small = 1e-7 * (np.abs(m).max() + 1e-300)
    exact = bool(np.all(xs == np.round(xs)) and np.all(ys == np.round(ys)))
    for i in range(len(xs)):
        w1, w2 = abs(e[i + 3] - e[i + 2]), abs(e[i + 1] - e[i])
        if w1 + w2 < small:
            if abs(e[i + 1] - e[i + 2]) < small:
                result.append(e[i + 1])
                continue
            if not exact or w1 + w2 != 0:
                raise Ambiguous
            result.append((e[i + 1] + e[i + 2]) / 2)
        else:
            result.append((w1 * e[i + 1] + w2 * e[i + 2]) / (w1 + w2))
    return np.array(result)


def steffen_slopes(xs, ys):
    h = np.diff(xs)
    s = np.diff(ys) / h
    result = [s[0]]
    for i in range(1, len(xs) - 1):
        p = (s[i - 1] * h[i] + s[i] * h[i - 1]) / (h[i - 1] + h[i])
        if s[i - 1] * s[i] <= 0:
            result.append(0.0)
        else:
            result.append(np.sign(s[i]) * min(2 * abs(s[i - 1]), 2 * abs(s[i]),
                                              abs(p)))
    return np.array(result + [s[-1]])


def fit(kind, xs, ys, x):
    """Value at x of the model fitted to the points."""
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    n = len(xs)
    i = min(max(int(np.searchsorted(xs, x)) - 1, 0), n - 2)
    x0, x1, y0, y1 = xs[i], xs[i + 1], ys[i], ys[i + 1]
    if kind == 'linear':
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    if kind == 'polynomial':
        # Neville's scheme.
        p = ys.copy()
        for k in range(1, n):
            p[:n - k] = ((x - xs[k:]) * p[:n - k] +
                         (xs[:n - k] - x) * p[1:n - k + 1]) / (xs[:n - k] -
                                                               xs[k:])
        return p[0]
    if kind in ('c_spline', 'bicubic', 'c_spline_periodic'):
        if n == 2:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
        c = curvatures(xs, ys, kind == 'c_spline_periodic')
        h = x1 - x0
        a, b = (x1 - x) / h, (x - x0) / h
        return a * y0 + b * y1 + ((a**3 - a) * c[i] +
                                  (b**3 - b) * c[i + 1]) * h * h / 6
    slopes = steffen_slopes(xs, ys) if kind == 'steffen' else akima_slopes(
        xs, ys, kind == 'akima_periodic')
    return hermite(x0, x1, y0, y1, slopes[i], slopes[i + 1], x)


def fit2d(kind, xs, ys, zs, x, y):
    """Fits along x, then along y."""
    return fit(kind, ys, [fit(kind, xs, column, x) for column in zs.T], y)
