"""Hypothesis strategies shared by the checks (plain JSON data only)."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

#: Fractions of a cell, with the delicate ones over-represented.
fraction = st.one_of(
    st.sampled_from([0.0, 0.5, 0.25, 0.75, 0.49, 0.51, 0.1, 0.9]),
    st.integers(0, 1023).map(lambda k: k / 1024),
    st.floats(0, 1, exclude_max=True, allow_nan=False))

number = st.one_of(
    st.integers(-50, 50).map(float),
    st.integers(-4000, 4000).map(lambda k: k / 8),
    st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 6)))

unit = st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.01, 2.0, 10.0, 1 / 3, 100.0])


@st.composite
def steps(draw, size):
    """Strictly positive steps, not all equal."""
    result = draw(st.lists(st.integers(1, 12), min_size=size, max_size=size))
    if len(set(result)) == 1:
        result[draw(st.integers(0, size - 1))] += draw(st.integers(1, 9))
    return result


@st.composite
def axis_values(draw, min_size=2, max_size=24, kinds=('reg', 'irr'),
                descending=None, origin=number, scale=unit):
    """Values of an axis: clearly regular or clearly irregular."""
    kind = draw(st.sampled_from(kinds))
    if kind == 'irr':
        n = draw(st.integers(max(min_size, 3), max(max_size, 3)))
        gaps = np.array(draw(steps(n - 1)), dtype=float)
    else:
        n = draw(st.integers(max(min_size, 2), max_size))
        gaps = np.full(n - 1, float(draw(st.integers(1, 12))))
    gaps = gaps * draw(scale)
    start = draw(origin)
    values = start + np.concatenate([[0.0], np.cumsum(gaps)])
    if draw(st.booleans()) if descending is None else descending:
        values = values[::-1]
    return {'kind': kind, 'v': [float(x) for x in values]}


def place(values, cell, frac):
    """Coordinate at a fraction of a cell; cells outside are extrapolated."""
    n = len(values)
    if n == 1:
        return values[0] + cell + frac
    if cell < 0:
        return values[0] + (cell + frac) * (values[1] - values[0])
    if cell >= n - 1:
        return values[-1] + (cell - (n - 1) + frac) * (values[-1] -
                                                        values[-2])
    return values[cell] + frac * (values[cell + 1] - values[cell])


def cells(n, outside=2):
    """Positions: (cell, fraction), cells outside the axis included."""
    return st.tuples(st.integers(-outside, n - 2 + outside), fraction)


def inside(n):
    """Positions in the domain of an axis of n values."""
    return st.tuples(st.integers(0, max(n - 2, 0)), fraction)


@st.composite
def circle_values(draw, max_size=24, kinds=('reg', 'irr'), min_size=3,
                  descending=None):
    """Longitudes of a full circle, starting anywhere."""
    kind = draw(st.sampled_from(kinds))
    start = draw(
        st.one_of(st.sampled_from([-180.0, 0.0, -360.0, 20.5, 180.0, -170.25]),
                  st.integers(-720, 720).map(lambda k: k / 2),
                  st.floats(-400, 400).map(lambda x: round(x, 4))))
    if kind == 'reg':
        n = draw(st.sampled_from([
            k for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 18, 20, 24, 36)
            if min_size <= k <= max_size
        ]))
        values = start + np.arange(n) * (360.0 / n)
    else:
        n = draw(st.integers(max(4, min_size), max_size))
        # The gap at the seam does not exceed the mean step.
        gaps = np.array(draw(steps(n)), dtype=float)
        if len(set(gaps[:-1])) == 1:
            gaps[0] += 7
        total = gaps.sum()
        while gaps[-1] > gaps[:-1].mean() * 0.99:
            gaps[int(np.argmin(gaps[:-1]))] += 5
            total = gaps.sum()
        if len(set(gaps[:-1])) == 1:
            gaps[0] += 7
            total = gaps.sum()
        values = start + np.concatenate([[0.0], np.cumsum(gaps)[:-1]
                                         ]) * (360.0 / total)
    if draw(st.booleans()) if descending is None else descending:
        values = values[::-1]
    return {'kind': kind, 'v': [float(x) for x in values]}
