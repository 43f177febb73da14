"""A01: nearest and bracketing lookups on axes."""
import numpy as np
from hypothesis import strategies as st

import pyinterp.core as core
from vf import defaults, gen, large
from vf.engine import Facet, require

PARTS = ['axis']
RULE = """An axis (real, integer or date valued; evenly spaced or not;
increasing or decreasing) and coordinates placed relatively to its cells (nodes,
middles, inside, outside) are generated. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least one coordinate
inside the domain and off the nodes. The oracle is an exhaustive search of the
nearest node and of the enclosing cell."""
ASSUMPTIONS = [
    'Axes are clearly regular or clearly irregular with respect to the '
    'tolerance of the constructor (1e-6).',
    'Coordinates outside an evenly spaced axis by less than half a step are '
    'not required to be refused by the nearest lookup.',
]


def brackets(v, c, tol):
    """Consecutive nodes (as index sets) that enclose c."""
    result = set()
    for i in range(len(v) - 1):
        lo, hi = min(v[i], v[i + 1]), max(v[i], v[i + 1])
        if lo - tol <= c <= hi + tol:
            result.add((i, i + 1))
    return result


def verify(v, coords, near, clamp, pairs, tol, kind, exact=False):
    """Compares the lookups with an exhaustive search."""
    lo, hi = min(v), max(v)
    step = abs(v[1] - v[0]) if len(v) > 1 else 0
    labels = set()
    for c, i, b, (i0, i1) in zip(coords, near, clamp, pairs):
        dist = [abs(c - x) for x in v]
        best = min(dist)
        out = c < lo or c > hi
        end = v.index(lo) if c < lo else v.index(hi)
        if not out:
            where = f'axis {v}, coordinate {c!r}'
            require(0 <= i < len(v), f'{where}: not found, inside the domain')
            require(dist[i] <= best + 2 * tol,
                    f'{where}: nearest {i}, distance {dist[i]} > {best}')
            require(b == i, f'{where}: clamped lookup {b} differs from {i}')
            if len(v) > 1:
                key = (min(i0, i1), max(i0, i1))
                require(key in brackets(v, c, tol),
                        f'{where}: enclosing nodes ({i0}, {i1})')
                if c not in v:
                    require(v[i0] - tol <= c <= v[i1] + tol,
                            f'{where}: nodes ({i0}, {i1}) are not ordered')
                    labels.add('between nodes')
                else:
                    labels.add('node')
        else:
            where = f'axis {v}, coordinate {c!r} outside'
            require(b == end, f'{where}: clamped to {b} instead of {end}')
            margin = (0.5 * step + (step % 2 if exact else 0) +
                      0) if kind == 'reg' else 0
            margin += tol
            if c < lo - margin or c > hi + margin:
                require(i == -1, f'{where}: nearest node {i}')
            else:
                require(i in (-1, end), f'{where}: nearest node {i}')
            require((i0, i1) == (-1, -1), f'{where}: nodes ({i0}, {i1})')
            labels.add('outside')
    return sorted(labels) if 'between nodes' in labels else None


@st.composite
def real_case(draw):
    axis = draw(gen.axis_values())
    n = len(axis['v'])
    pos = draw(st.lists(gen.cells(n, 4), min_size=1, max_size=12))
    return {**axis, 'pos': pos, 'flip': draw(st.booleans())}


def run_real(case):
    v = case['v']
    axis = core.Axis(np.array(v))
    if case['flip']:
        axis = axis.flip()
    # The values of the axis itself: A03 compares them with the given ones.
    v = axis[:].tolist()
    coords = np.array([gen.place(v, *p) for p in case['pos']])
    tol = 1e-9 * max(1, max(map(abs, v)))
    return verify(v, coords.tolist(), axis.find_index(coords).tolist(),
                  axis.find_index(coords, bounded=True).tolist(),
                  axis.find_indexes(coords).tolist(), tol, case['kind'])


@st.composite
def int_case(draw):
    kind = draw(st.sampled_from(['reg', 'irr']))
    big = draw(st.sampled_from([1, 1, 7, 1000, 10**6, 10**12]))
    if kind == 'reg':
        n = draw(st.integers(2, 20))
        gaps = [draw(st.integers(1, 30)) * big] * (n - 1)
    else:
        n = draw(st.integers(3, 20))
        gaps = [g * big for g in draw(gen.steps(n - 1))]
    start = draw(st.integers(-10**9, 10**9)) * draw(
        st.sampled_from([0, 1, 10**6]))
    v = [start]
    for g in gaps:
        v.append(v[-1] + g)
    if draw(st.booleans()):
        v = v[::-1]
    pos = draw(
        st.lists(st.tuples(st.integers(-4, n + 2), gen.fraction),
                 min_size=1, max_size=12))
    extra = draw(st.lists(st.integers(-3, 3), min_size=len(pos),
                          max_size=len(pos)))
    coords = []
    for (cell, frac), e in zip(pos, extra):
        if cell < 0:
            base, step = v[0] + cell * (v[1] - v[0]), v[1] - v[0]
        elif cell >= n - 1:
            step = v[-1] - v[-2]
            base = v[-1] + (cell - n + 1) * step
        else:
            base, step = v[cell], v[cell + 1] - v[cell]
        coords.append(base + int(frac * step) + e)
    return {'kind': kind, 'v': v, 'c': coords, 'flip': draw(st.booleans()),
            'unit': draw(st.sampled_from(
                [None, 'datetime64[s]', 'datetime64[ns]', 'timedelta64[us]',
                 'datetime64[D]', 'timedelta64[h]', 'datetime64[ms]']))}


def run_int(case):
    v = case['v']
    array, coords = np.array(v, 'int64'), np.array(case['c'], 'int64')
    if case['unit'] is None:
        axis = core.AxisInt64(array)
    else:
        axis = core.TemporalAxis(array.view(case['unit']))
        coords = coords.view(case['unit'])
    if case['flip']:
        axis = axis.flip()
        v = v[::-1]
    return verify(v, case['c'], axis.find_index(coords).tolist(),
                  axis.find_index(coords, bounded=True).tolist(),
                  axis.find_indexes(coords).tolist(), 0, case['kind'], True)


@st.composite
def odd_case(draw):
    axis = draw(gen.axis_values(min_size=2))
    return {**axis, 'c': draw(st.lists(st.sampled_from(
        [1e300, -1e300, float('inf'), float('-inf'), float('nan'), 1e19,
         -1e19, 9.3e18, 2e5, -2e5]), min_size=1, max_size=6))}


def run_odd(case):
    v = case['v']
    axis = core.Axis(np.array(v))
    coords = np.array(case['c'])
    lo, hi = v.index(min(v)), v.index(max(v))
    for c, i, b, pair in zip(coords, axis.find_index(coords).tolist(),
                             axis.find_index(coords, bounded=True).tolist(),
                             axis.find_indexes(coords).tolist()):
        where = f'axis {v}, coordinate {c!r}'
        require(i == -1, f'{where}: nearest node {i}')
        require(pair == [-1, -1], f'{where}: nodes {pair}')
        if np.isnan(c):
            require(b == -1, f'{where}: clamped to {b}')
        else:
            require(b == (lo if c < 0 else hi), f'{where}: clamped to {b}')
    return 'far'


@st.composite
def single_case(draw):
    x = draw(gen.number)
    return {'x': x, 'c': draw(st.lists(
        st.sampled_from([0.0, 1e-3, -1e-3, 1.0, -1.0, 100.0, -100.0]),
        min_size=1, max_size=5))}


def run_single(case):
    x = case['x']
    axis = core.Axis(np.array([x]))
    coords = x + np.array(case['c'])
    near = axis.find_index(coords).tolist()
    clamp = axis.find_index(coords, bounded=True).tolist()
    for c, i, b in zip(coords.tolist(), near, clamp):
        require(i == (0 if c == x else -1),
                f'axis of the single value {x}: {c!r} found at {i}')
        require(b == 0, f'axis of the single value {x}: {c!r} clamped at {b}')
    return 'single'


@st.composite
def bad_case(draw):
    v = draw(st.lists(st.integers(0, 6), min_size=0, max_size=7))
    return {'v': v, 'int': draw(st.booleans())}


def run_bad(case):
    """Unsorted values are refused, sorted ones are accepted."""
    v = case['v']
    up = all(a < b for a, b in zip(v, v[1:]))
    down = all(a > b for a, b in zip(v, v[1:]))
    try:
        if case['int']:
            axis = core.AxisInt64(np.array(v, 'int64'))
        else:
            axis = core.Axis(np.array(v, float))
    except ValueError:
        require(not v or not (up or down), f'{v} refused')
        return 'refused'
    require(bool(v) and (up or down), f'{v} accepted: {axis[:]}')
    return 'accepted' if len(v) > 2 else None


FACETS = [
    Facet('real', real_case(), run_real, 2500, 3,
          'Lookups on real axes against an exhaustive search.'),
    Facet('integer', int_case(), run_int, 2500, 3,
          'Lookups on integer and time axes against an exhaustive search.'),
    Facet('odd', odd_case(), run_odd, 800, 1,
          'Infinite, undefined and huge coordinates are outside.'),
    Facet('single', single_case(), run_single, 300, 1,
          'Axes of one value.'),
    Facet('construction', bad_case(), run_bad, 600, 1,
          'Values that are not strictly monotonic are refused.'),
    defaults.facet('A01'),
    large.facet('A01'),
]
