"""A02: longitude axes are periodic."""
import numpy as np
from hypothesis import strategies as st

import pyinterp.core as core
from vf import gen, large
from vf.engine import Facet, require

PARTS = ['axis']
RULE = """Longitude axes covering the full circle (evenly spaced or not, any
origin, both directions, plain or wrapped into [-180, 180) or [0, 360)) or a
part of it, and longitudes placed in their cells (the one across the seam
included) and shifted by full turns. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a longitude in the seam cell
or shifted by at least one turn. The oracle is an exhaustive search with
distances modulo 360."""
ASSUMPTIONS = [
    'Results may differ between two nodes when a longitude is equally distant '
    'from both within 1e-9 degree.',
    'An irregular axis covers the circle when the gap at the seam does not '
    'exceed its mean step, which is how the constructor decides.',
]
TOL = 1e-8


def mod(x):
    return x - 360.0 * np.floor(x / 360.0)


def cdist(a, b):
    d = mod(a - b)
    return min(d, 360.0 - d)


def verify(v, coords, axis, full):
    n = len(v)
    array = np.array(coords)
    near = axis.find_index(array).tolist()
    clamp = axis.find_index(array, bounded=True).tolist()
    pairs = axis.find_indexes(array).tolist()
    lo, hi = min(v), max(v)
    asc = v[0] < v[-1]
    for c, i, b, (i0, i1) in zip(coords, near, clamp, pairs):
        where = f'longitudes {v}, {c!r}'
        dist = [cdist(c, x) for x in v]
        best = min(dist)
        rel = lo + mod(c - lo)  # c on the turn of the axis
        if not full and rel > hi + TOL and rel < lo + 360 - TOL:
            step = abs(v[1] - v[0]) * (0.5 + 1e-9)
            require((i0, i1) == (-1, -1), f'{where} outside: {(i0, i1)}')
            if rel > hi + step:
                require(i == -1, f'{where} outside: nearest {i}')
            else:
                require(i in (-1, v.index(hi)), f'{where}: nearest {i}')
            continue
        if not full and (rel > hi - TOL or rel < lo + TOL):
            continue
        require(0 <= i < n and dist[i] <= best + TOL,
                f'{where}: nearest {i}, closest distance {best}')
        require(0 <= b < n and dist[b] <= best + TOL,
                f'{where}: nearest with clamping {b}, closest is {best}')
        require(0 <= i0 < n and 0 <= i1 < n and i0 != i1,
                f'{where}: nodes {(i0, i1)}')
        if (i1 - i0) % n == 1 and n > 2:
            a, z = i0, i1
        else:
            a, z = i1, i0
        require((z - a) % n == 1, f'{where}: nodes {(i0, i1)} not consecutive')
        # going from v[a] to v[z] in the direction of the axis meets c
        sign = 1 if asc else -1
        ok = False
        for a, z in ([(a, z)] if n > 2 else [(0, 1), (1, 0)]):
            width = mod(sign * (v[z] - v[a]))
            ahead = mod(sign * (c - v[a]) + TOL) - TOL
            ok |= ahead <= width + TOL
        require(ok, f'{where}: nodes {(i0, i1)} do not enclose it')


@st.composite
def full_case(draw):
    axis = draw(gen.circle_values(min_size=2))
    n = len(axis['v'])
    return {
        **axis,
        'pos': draw(st.lists(st.tuples(st.integers(0, n - 1), gen.fraction,
                                       st.integers(-3, 3)),
                             min_size=1, max_size=12)),
        'turn': draw(st.integers(-2, 2)),
        'wrap': draw(st.sampled_from([None, None, -180.0, 0.0])),
        'flip': draw(st.booleans()),
    }


def run_full(case):
    v = np.array(case['v'])
    n = len(v)
    period = np.append(v, v[0] + (360.0 if v[0] < v[-1] else -360.0))
    coords = [
        float(period[i] + f * (period[i + 1] - period[i]) + 360.0 * k)
        for i, f, k in case['pos']
    ]
    if case['wrap'] is not None:
        given = case['wrap'] + mod(v - case['wrap'])
    else:
        given = v + 360.0 * case['turn']
    if n == 2 and abs(given[0] - given[1]) < 1e-6:
        return None
    axis = core.Axis(given, is_circle=True)
    values = axis[:]
    require(all(cdist(a, b) < TOL for a, b in zip(values, given)),
            f'{given.tolist()} read back as {values.tolist()}')
    require(axis.is_circle, f'{given.tolist()} is not seen as a circle')
    if case['flip']:
        axis = axis.flip()
        require(axis.is_circle, 'a flipped circle is no longer a circle')
        values = axis[:]
    verify(values.tolist(), coords, axis, True)
    seam = any(i == n - 1 and f > 0 for i, f, _ in case['pos'])
    turns = any(k for _, _, k in case['pos'])
    label = [case['kind'], 'descending' if values[0] > values[-1] else
             'ascending']
    label += ['seam'] * seam + ['turns'] * turns
    return label if seam or turns else None


@st.composite
def part_case(draw):
    axis = draw(gen.axis_values(
        min_size=3, origin=st.sampled_from(
            [-180.0, 0.0, 170.0, 300.0, -20.5, 350.0, -359.0]),
        scale=st.sampled_from([1.0, 0.5, 0.25])))
    n = len(axis['v'])
    return {**axis, 'pos': draw(st.lists(
        st.tuples(st.integers(-2, n), gen.fraction, st.integers(-3, 3)),
        min_size=1, max_size=12)), 'turn': draw(st.integers(-2, 2)),
        'flip': draw(st.booleans())}


def run_part(case):
    v = np.array(case['v'])
    if abs(v[-1] - v[0]) > 300:
        return None
    coords = [float(gen.place(v, i, f) + 360.0 * k)
              for i, f, k in case['pos']]
    axis = core.Axis(v + 360.0 * case['turn'], is_circle=True)
    require(not axis.is_circle, f'{v.tolist()} is seen as a circle')
    if case['flip']:
        axis = axis.flip()
    verify(axis[:].tolist(), coords, axis, False)
    return case['kind'] if any(k for *_, k in case['pos']) else None


FACETS = [
    Facet('full', full_case(), run_full, 4000, 4,
          'Lookups on full circles against an exhaustive search modulo 360.'),
    Facet('part', part_case(), run_part, 3000, 2,
          'Lookups on a part of the circle do not depend on full turns.'),
    large.facet('A02'),
]
