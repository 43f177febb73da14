"""Grids of two to four dimensions: generation and reference interpolation."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from . import gen

DATES = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}


@st.composite
def real_axis(draw, max_size=6, low=None, high=None):
    """Values of an axis, within [low, high] if given."""
    if low is None:
        return draw(gen.axis_values(2, max_size))['v']
    axis = draw(gen.axis_values(
        2, max_size, origin=st.just(0.0),
        scale=st.sampled_from([1.0, 0.5, 0.25, 0.1])))['v']
    lo, hi = min(axis), max(axis)
    if hi - lo > high - low:
        axis = [x * (high - low) / (hi - lo) for x in axis]
        lo, hi = min(axis), max(axis)
    room = (high - low) - (hi - lo)
    start = low + room * draw(st.one_of(
        st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 64).map(
            lambda k: k / 64)))
    return [min(max(x - lo + start, low), high) for x in axis]


@st.composite
def date_axis(draw, max_size=6):
    """Values of a time axis: resolution and integers."""
    unit = draw(st.sampled_from(sorted(DATES)))
    n = draw(st.integers(2, max_size))
    gaps = draw(gen.steps(n - 1)) if n > 2 and draw(st.booleans()) else [
        draw(st.integers(1, 12))] * (n - 1)
    step = draw(st.sampled_from([2, 10, 3600, 86400])) * draw(
        st.sampled_from([1, DATES[unit]]))
    start = draw(st.integers(-400, 400)) * step + draw(
        st.sampled_from([0, 0, 10**9 * DATES[unit]]))
    v = [start]
    for g in gaps:
        v.append(v[-1] + g * step)
    if draw(st.booleans()):
        v = v[::-1]
    return {'unit': unit, 'v': v}


def place_int(values, cell, frac):
    """Instant inside a cell of a time axis."""
    a, b = values[cell], values[cell + 1]
    k = int(round(frac * 1024))
    return a + (b - a) * k // 1024


def values_of(seed, shape, kind='f8'):
    """Data of a grid."""
    rng = np.random.default_rng(seed)
    if kind == 'i1':
        return rng.integers(-128, 128, shape).astype('i1')
    if kind == 'u1':
        return rng.integers(0, 256, shape).astype('u1')
    if kind in ('i2', 'u2', 'i4', 'u4', 'i8', 'u8'):
        low = 0 if kind[0] == 'u' else -1000
        return rng.integers(low, 1000, shape).astype(kind)
    if seed % 2:
        return rng.integers(-20, 20, shape).astype(kind)
    return (rng.normal(size=shape) * 10).astype(kind)


def cells_of(values, c, tol):
    """Cells of an axis that hold a coordinate."""
    result = []
    for i in range(len(values) - 1):
        lo, hi = min(values[i], values[i + 1]), max(values[i], values[i + 1])
        if lo - tol <= c <= hi + tol:
            result.append(i)
    return result


def great_circle(x, y, x0, y0):
    rx, ry = math.radians(x0 - x), math.radians(y0 - y)
    a = math.sin(ry / 2)**2 + math.cos(math.radians(y)) * math.cos(
        math.radians(y0)) * math.sin(rx / 2)**2
    return 2 * math.asin(math.sqrt(min(max(a, 0), 1)))


def surface_weights(x, y, xs, ys, method, power):
    """Possible weights of the four corners, in the order of the product."""
    corners = list(itertools.product((0, 1), (0, 1)))
    if method == 'bilinear':
        t = (x - xs[0]) / (xs[1] - xs[0])
        u = (y - ys[0]) / (ys[1] - ys[0])
        return [[(t if i else 1 - t) * (u if j else 1 - u)
                 for i, j in corners]]
    dist = [great_circle(x, y, xs[i], ys[j]) for i, j in corners]
    best = min(dist)
    if method == 'nearest':
        return [[1.0 if k == i else 0.0 for k in range(4)]
                for i in range(4) if dist[i] <= best * (1 + 1e-7) + 1e-12]
    result = []
    if best < 1e-12:
        # Nodes at a pole are at the same place.
        result = [[1.0 if k == i else 0.0 for k in range(4)]
                  for i in range(4) if dist[i] < 1e-12]
        dist = [max(d, 1e-300) for d in dist]
        best = min(dist)
    w = [(best / d)**power for d in dist]
    return result + [[k / sum(w) for k in w]]


def line_weights(c, a, b, method):
    t = float(c - a) / float(b - a)
    if method == 'linear':
        return [[1 - t, t]]
    if abs(t - 0.5) < 1e-9:
        return [[1.0, 0.0], [0.0, 1.0]]
    return [[1.0, 0.0]] if t < 0.5 else [[0.0, 1.0]]


def interpolate(axes, data, point, method, power=2, zm='linear', um='linear',
                rtol=1e-9):
    """Possible values at a point of the domain."""
    options = []
    for k, (v, c) in enumerate(zip(axes, point)):
        exact = isinstance(c, int)
        step = min(abs(b - a) for a, b in zip(v, v[1:]))
        tol = 0 if exact else rtol * step + 1e-14 * max(map(abs, v))
        options.append(cells_of(v, c, tol))
    result = []
    for cell in itertools.product(*options):
        corner = data[tuple(slice(i, i + 2) for i in cell)].astype('f8')
        ends = [(v[i], v[i + 1]) for v, i in zip(axes, cell)]
        for w in surface_weights(point[0], point[1], ends[0], ends[1], method,
                                 power):
            w = np.array(w).reshape((2, 2) + (1, ) * (len(axes) - 2))
            plane = (corner * w).sum(axis=(0, 1))
            for wz in (line_weights(point[2], *ends[2], zm)
                       if len(axes) > 2 else [None]):
                if wz is None:
                    result.append(float(plane))
                    continue
                line = np.tensordot(wz, plane, 1)
                for wu in (line_weights(point[3], *ends[3], um)
                           if len(axes) > 3 else [None]):
                    result.append(float(line if wu is None else np.dot(
                        wu, line)))
    return result
