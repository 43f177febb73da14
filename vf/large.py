"""Large inputs: the other facets draw few points on small structures.

`OPERATIONS[property]` lists functions of a random generator and a size that
check one large call, by an oracle written with NumPy, by the same call on
pieces of its input, or on the neighbourhood of each point, and return a label.
"""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .engine import Facet, require


def _same(a, b, rtol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind != 'f':
        return bool((a == b).all()) if a.dtype.kind not in 'mM' else (
            np.array_equal(a, b, equal_nan=True))
    if not rtol:
        return np.array_equal(a, b, equal_nan=True)
    scale = np.nanmax(np.abs(a)) if a.size and not np.isnan(a).all() else 1
    return np.allclose(a, b, rtol=rtol, atol=rtol * scale, equal_nan=True)


def _starts(rng, n, count=25):
    """Where the pieces begin: anywhere, and where workers take over."""
    result = [0, max(n - 3, 0)]
    for workers in range(2, 17):
        k = rng.integers(1, workers)
        result.append(max(n // workers * int(k) - 1, 0))
    result += [int(k) for k in rng.integers(0, n, count)]
    for k in (64, 100, 128, 256, 1000, 1024, 4096, 65536):
        if k < n:
            result.append(k - 1)
    return result


def pieces(name, rng, n, call):
    """A call on everything is the call on each piece."""
    threads = int(rng.choice([0, 1, 2, 3, 7, 16, 40]))
    whole = call(slice(0, n), threads)
    whole = whole if isinstance(whole, tuple) else (whole, )
    for array in whole:
        require(len(array) == n, f'{name}: {len(array)} results for {n}')
    for start in _starts(rng, n):
        part = slice(start, min(start + int(rng.integers(1, 6)), n))
        alone = call(part, 1)
        alone = alone if isinstance(alone, tuple) else (alone, )
        for one, other in zip(whole, alone):
            require(_same(one[part], other),
                    f'{name}: items {part.start} to {part.stop} of {n} with '
                    f'{threads} threads: {one[part]}, alone {other}')
    return name


def _turns(rng, lon):
    return lon + 360.0 * rng.integers(-2, 3, len(lon))


# -- axes -------------------------------------------------------------------
def _nodes(rng, n):
    if rng.integers(2):
        v = rng.uniform(-100, 100) + np.arange(n) * float(
            rng.choice([0.25, 1, 1 / 3, 7]))
    else:
        v = np.cumsum(rng.integers(1, 9, n) / 8.0) + int(
            rng.integers(-99, 99))
    if rng.integers(3) == 0:
        # Uneven in one place, or in a few.
        at = rng.integers(1, n - 1, int(rng.choice([1, 1, 2, 5])))
        at = np.unique(at // 2 * 2 + int(rng.integers(2)) * (n > 4))
        at = at[(at > 0) & (at < n - 1)]
        v = v.copy()
        v[at] += (v[at + 1] - v[at]) / 4
    return v[::-1].copy() if rng.integers(2) else v


def _around(rng, v, count=300):
    lo, hi = min(v[0], v[-1]), max(v[0], v[-1])
    step = (hi - lo) / (len(v) - 1)
    at = rng.uniform(lo - 3 * step, hi + 3 * step, count)
    at[:40] = v[rng.integers(0, len(v), 40)]
    at[40:45] = v[0], v[-1], v[1], v[-2], v[len(v) // 2]
    return at


def axis(rng, n):
    import pyinterp
    v = _nodes(rng, n)
    item = pyinterp.Axis(v)
    require(len(item) == n and item.is_ascending() == (v[0] < v[-1]),
            f'{n} nodes: size {len(item)}')
    require(np.allclose(item[:], v, rtol=1e-12, atol=1e-9), f'{n} nodes')
    at = _around(rng, v)
    near, clamp = item.find_index(at), item.find_index(at, bounded=True)
    pairs = item.find_indexes(at)
    gap = np.abs(at[:, None] - v[None, :])
    best = gap.min(axis=1)
    lo, hi = min(v[0], v[-1]), max(v[0], v[-1])
    out = (at < lo - 1e-9) | (at > hi + 1e-9)
    rows = np.arange(len(at))
    # Up to half a step outside a regular axis.
    far = np.maximum(lo - at, at - hi) > (hi - lo) / (n - 1) * 0.51
    require(bool((near[far] == -1).all() and (near[~out] >= 0).all()),
            f'{n} nodes: nearest outside {near[far]}')
    for index, rows_ in ((near, rows[~out]), (clamp, rows)):
        require(bool((index[rows_] >= 0).all() and (
            gap[rows_, index[rows_]] <= best[rows_] + 1e-9).all()),
                f'{n} nodes: {index}, at {at}')
    require(bool((pairs[out] == -1).all()), f'{n} nodes: cells outside')
    a, b = pairs[~out].T
    inside = at[~out]
    require(bool((np.abs(b - a) == 1).all() and (a >= 0).all() and
                 (b >= 0).all() and (a < n).all() and (b < n).all() and (np.minimum(v[a], v[b]) <= inside + 1e-9).all()
                 and (np.maximum(v[a], v[b]) >= inside - 1e-9).all()),
            f'{n} nodes: cells {pairs}, at {at}')
    return 'axis'


def axis_calls(rng, n):
    import pyinterp
    item = pyinterp.Axis(_nodes(rng, 30))
    at = _around(rng, item[:], n) if n >= 45 else rng.uniform(-99, 99, n)
    return pieces('axis_calls', rng, n, lambda s, _: (
        item.find_index(at[s]), item.find_indexes(at[s])))


def circle(rng, n):
    import pyinterp
    n = max(n % 4000, 25)
    start = float(rng.choice([-180, 0, 37.25, -90]))
    v = start + np.arange(n) * (360.0 / n)
    if rng.integers(2):
        v = v[::-1].copy()
    if rng.integers(3) == 0:
        v[int(rng.integers(1, n - 1))] += 90.0 / n  # Uneven in one place.
    item = pyinterp.Axis(v, is_circle=True)
    require(item.is_circle, f'{n} nodes: not a circle')
    at = _turns(rng, rng.uniform(-180, 180, 300))
    at[:50] = v[rng.integers(0, n, 50)] + 360
    gap = np.abs((at[:, None] - v[None, :] + 180) % 360 - 180)
    rows = np.arange(len(at))
    near = item.find_index(at)
    require(bool((near >= 0).all()
                 and (gap[rows, near] <= gap.min(axis=1) + 1e-8).all()),
            f'{n} longitudes: nearest {near} of {at}')
    a, b = item.find_indexes(at).T
    step = 360.0 / n
    require(bool((a >= 0).all() and np.isin((b - a) % n, (1, n - 1)).all() and (
        gap[rows, a] <= step * 1.25 + 1e-8).all() and (
            gap[rows, b] <= step * 1.25 + 1e-8).all()), f'{n} longitudes: {a}, {b}')
    return 'circle'


def axis_values(rng, n):
    import copy
    import pickle

    import pyinterp
    v = _nodes(rng, n)
    item = pyinterp.Axis(v)
    for other in (pickle.loads(pickle.dumps(item)), copy.copy(item)):
        require(other == item and np.array_equal(other[:], item[:]),
                f'{n} nodes: copy')
    back = item.flip()
    require(back != item and np.allclose(back[:], item[:][::-1], rtol=1e-12,
                                         atol=1e-9), f'{n} nodes: flip')
    for k in rng.integers(0, n, 20).tolist():
        require(item[k] == item[:][k] and item[k:k + 5].tolist() ==
                item[:][k:k + 5].tolist(), f'{n} nodes: item {k}')
    require(item.front() == item[0] and item.back() == item[n - 1] and
            item.min_value() == item[:].min() and
            item.max_value() == item[:].max(), f'{n} nodes: ends')
    w = v.copy()
    k = int(rng.integers(1, n - 1))
    w[k] += (w[k + 1] - w[k]) / 3
    require(pyinterp.Axis(w) != item, f'{n} nodes: equal, node {k} moved')
    return 'axis_values'


def dates(rng, n):
    import pyinterp
    unit = str(rng.choice(['D', 'h', 's', 'ms', 'us', 'ns']))
    v = np.cumsum(rng.integers(1, 9, n)) * 4 + int(rng.integers(0, 9999))
    if rng.integers(2):
        v = np.arange(n) * 8 + int(rng.integers(0, 9999))
    if rng.integers(3) == 0:
        v[int(rng.integers(1, n - 1))] += 2  # Uneven in one place.
    item = pyinterp.TemporalAxis(v.view(f'M8[{unit}]'))
    require(np.array_equal(item[:], v.view(f'M8[{unit}]')), f'{n} dates')
    at = rng.integers(v[0] - 9, v[-1] + 10, 300)
    at[:40] = v[rng.integers(0, n, 40)]
    gap = np.abs(at[:, None] - v[None, :])
    out = (at < v[0]) | (at > v[-1])
    rows = np.arange(len(at))
    near = item.find_index(at.view(f'M8[{unit}]'))
    far = (at < v[0] - 4) | (at > v[-1] + 4)
    require(bool((near[far] == -1).all() and (near[~out] >= 0).all()
                 and (gap[rows, near] == gap.min(axis=1))[~out].all()),
            f'{n} dates: nearest {near} of {at}')
    a, b = item.find_indexes(at.view(f'M8[{unit}]')).T
    require(bool((a[out] == -1).all() and (b[~out] == a[~out] + 1).all()
                 and (v[a] <= at)[~out].all() and (v[b] >= at)[~out].all()),
            f'{n} dates: cells {a} of {at}')
    return 'dates'


def calendar(rng, n):
    import pyinterp
    unit = str(rng.choice(['s', 'ms', 'us', 'ns']))
    scale = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}[unit]
    v = rng.integers(-4 * 10**9, 8 * 10**9, n) * scale + rng.integers(
        0, scale, n)
    array = v.view(f'M8[{unit}]')
    days = array.astype('M8[D]')
    year = days.astype('M8[Y]')
    month = days.astype('M8[M]')
    date = pyinterp.dateutils.date(array)
    require(np.array_equal(date['year'], year.astype(int) + 1970) and
            np.array_equal(date['month'], month.astype(int) % 12 + 1) and
            np.array_equal(date['day'], (days - month.astype('M8[D]')).astype(
                int) + 1), f'{n} dates [{unit}]')
    require(np.array_equal(pyinterp.dateutils.weekday(array),
                           (days.astype(int) + 4) % 7), f'{n} week days')
    require(np.array_equal(pyinterp.dateutils.timedelta_since_january(array),
                           array - year.astype(array.dtype)),
            f'{n} delays since January')
    second = v // scale % 86400
    time = pyinterp.dateutils.time(array)
    require(np.array_equal(time['hour'], second // 3600) and
            np.array_equal(time['minute'], second // 60 % 60) and
            np.array_equal(time['second'], second % 60), f'{n} times')
    return pieces('calendar', rng, n, lambda s, _: (
        pyinterp.dateutils.isocalendar(array[s]),
        pyinterp.dateutils.datetime(array[s])))


# -- periods ----------------------------------------------------------------
def period_lists(rng, n):
    from pyinterp.period import Period, PeriodList
    n = min(n, 3000)
    gaps, sizes = rng.integers(1, 6, n), rng.integers(0, 9, n)
    begin = np.cumsum(gaps + sizes) - sizes
    last = begin + sizes  # Closed and disjoint.

    def array(pick):
        return np.array([begin[pick], last[pick]]).astype('M8[s]')

    def check(periods, a, b, what):
        require(np.array_equal(periods['begin'], a.astype('M8[s]'))
                and np.array_equal(periods['last'], b.astype('M8[s]')),
                f'{n} periods: {what}: {len(periods)} instead of {len(a)}')

    everything = slice(None)
    item = PeriodList(array(everything))
    require(len(item) == n, f'{len(item)} periods of {n}')
    at = np.sort(rng.integers(-5, last[-1] + 6, 400))
    owner = np.searchsorted(begin, at, 'right') - 1
    want = (owner >= 0) & (at <= last[np.maximum(owner, 0)])
    got = item.belong_to_a_period(at.astype('M8[s]'))
    require(np.array_equal(got, want), f'{n} periods: {at[got != want]}')
    for k in range(0, 400, 40):
        close = item.is_it_close(np.datetime64(int(at[k]), 's'),
                                 np.timedelta64(1, 's'))
        near = bool(((begin - 1 <= at[k]) & (at[k] <= last + 1)).any())
        require(close == near, f'{n} periods: {at[k]} close: {close}')
    limit = int(rng.integers(1, 9))
    keep = sizes + 1 >= limit
    check(item.filter(np.timedelta64(limit, 's')).periods, begin[keep],
          last[keep], f'at least {limit}')
    epsilon = int(rng.integers(1, 6))
    first = np.concatenate([[True], gaps[1:] > epsilon])
    ends = np.append(np.flatnonzero(first)[1:] - 1, n - 1)
    check(item.join_adjacent_periods(np.timedelta64(epsilon, 's')).periods,
          begin[first], last[ends], f'joined within {epsilon}')
    lo, hi = np.sort(rng.integers(0, last[-1], 2))
    period = Period(np.datetime64(int(lo), 's'), np.datetime64(int(hi), 's'),
                    True)
    keep = (begin >= lo) & (last <= hi)
    check(item.within(period).periods, begin[keep], last[keep],
          f'within {lo} {hi}')
    a, b = np.maximum(begin, lo), np.minimum(last, hi)
    check(item.intersection(period).periods, a[a <= b], b[a <= b],
          f'cut by {lo} {hi}')
    pick = rng.random(n) < 0.5
    left, right = PeriodList(array(pick)), PeriodList(array(~pick))
    left.merge(right)
    check(left.periods, begin, last, 'merged')
    return 'periods'


# -- grids ------------------------------------------------------------------
def _field(rng, sizes, both=True):
    import pyinterp
    axes, steps = [], []
    for size in sizes:
        v = np.arange(size) * 0.5 if rng.integers(2) else np.cumsum(
            rng.integers(2, 6, size) / 8.0)
        axes.append(v + int(rng.integers(-99, 99)))
    down = rng.integers(0, 2, len(sizes)) * both
    axes = [v[::-1].copy() if d else v for v, d in zip(axes, down)]
    data = rng.normal(size=sizes)
    build = lambda parts: getattr(pyinterp, f'Grid{len(sizes)}D')(
        *[pyinterp.Axis(v[p]) for v, p in zip(axes, parts)],
        data[tuple(parts)])
    return axes, data, build


def _sizes(rng, n):
    dims = int(rng.integers(2, 5))
    sizes = [int(k) for k in rng.integers(2, 7, dims)]
    k = int(rng.integers(dims))
    sizes[k] = max(min(n, 120000 // int(np.prod(sizes))), 30)
    if dims == 2 and rng.integers(2):
        sizes = [int(k) for k in rng.integers(30, 250, 2)]
    return sizes


def _inside(rng, axes, count):
    columns = []
    for v in axes:
        k = rng.integers(0, len(v) - 1, count)
        f = rng.choice([0, 0.5, 0.25, 0.8, 0.1], count)
        columns.append(v[k] + f * (v[k + 1] - v[k]))
    return columns


def _runs(rng, columns):
    """Coordinates that are repeated from one point to the next (profiles,
    tracks, columns of a grid), some or all of them."""
    if rng.integers(2):
        return columns
    n = len(columns[0])
    held = rng.integers(0, 2, len(columns)).astype(bool)
    at = np.maximum.accumulate(
        np.where(rng.random(n) < rng.choice([0.1, 0.3, 0.7]), np.arange(n), 0))
    return [v[at] if h else v for v, h in zip(columns, held)]


def linear_grid(rng, n):
    import pyinterp
    sizes = _sizes(rng, n)
    axes, data, build = _field(rng, sizes)
    grid = build([slice(None)] * len(sizes))
    at = _inside(rng, axes, 60)
    function = {2: pyinterp.bivariate, 3: pyinterp.trivariate,
                4: pyinterp.quadrivariate}[len(sizes)]
    got = function(grid, *at)
    want = 0.0
    cells = []
    for v, x in zip(axes, at):
        up = v[::-1] if v[0] > v[-1] else v
        k = np.clip(np.searchsorted(up, x, 'right') - 1, 0, len(v) - 2)
        t = (x - up[k]) / (up[k + 1] - up[k])
        cells.append((len(v) - 1 - k, len(v) - 2 - k, t) if v[0] > v[-1]
                     else (k, k + 1, t))
    for corner in np.ndindex(*(2, ) * len(sizes)):
        index = tuple(c[b] for c, b in zip(cells, corner))
        weight = np.prod([c[2] if b else 1 - c[2]
                          for c, b in zip(cells, corner)], axis=0)
        want = want + weight * data[index]
    require(np.allclose(got, want, rtol=0, atol=1e-9),
            f'grid {sizes}: {got - want}')
    return 'linear_grid'


def local_grid(rng, n):
    """Methods that only look around the point."""
    import pyinterp
    sizes = _sizes(rng, n)
    axes, _, build = _field(rng, sizes)
    grid = build([slice(None)] * len(sizes))
    method = str(rng.choice(['bilinear', 'nearest',
                             'inverse_distance_weighting']))
    function = {2: pyinterp.bivariate, 3: pyinterp.trivariate,
                4: pyinterp.quadrivariate}[len(sizes)]
    options = {'interpolator': method}
    if len(sizes) > 2:
        options['z_method'] = str(rng.choice(['linear', 'nearest']))
    if len(sizes) > 3:
        options['u_method'] = str(rng.choice(['linear', 'nearest']))
    for _ in range(25):
        k = [int(rng.integers(0, len(v) - 1)) for v in axes]
        f = rng.uniform(0.01, 0.49, len(axes)) + 0.5 * rng.integers(
            0, 2, len(axes))
        at = [np.array([v[i] + g * (v[i + 1] - v[i])])
              for v, i, g in zip(axes, k, f)]
        part = [slice(max(i - 2, 0), i + 4) for i in k]
        a, b = function(grid, *at, **options), function(build(part), *at,
                                                        **options)
        require(_same(a, b, 1e-9), f'grid {sizes} {options}: {a} at {at}, '
                f'{b} with the nodes around')
    return f'local_grid {method}'


def grid_calls(rng, n):
    import pyinterp
    sizes = [int(k) for k in rng.integers(3, 7, int(rng.integers(2, 5)))]
    axes, data, build = _field(rng, sizes)
    data[rng.random(sizes) < 0.1] = np.nan
    grid = build([slice(None)] * len(sizes))
    at = _inside(rng, axes, n)
    at[0][rng.random(n) < 0.1] += 1e4
    at = _runs(rng, at)
    function = {2: pyinterp.bivariate, 3: pyinterp.trivariate,
                4: pyinterp.quadrivariate}[len(sizes)]
    method = str(rng.choice(['bilinear', 'nearest',
                             'inverse_distance_weighting']))
    return pieces('grid_calls', rng, n, lambda s, threads: function(
        grid, *[x[s] for x in at], interpolator=method, num_threads=threads))


def window_grid(rng, n):
    import pyinterp
    sizes = [int(rng.integers(30, 200)), int(rng.integers(30, 200))]
    sizes += [int(k) for k in rng.integers(2, 4, int(rng.integers(0, 3)))]
    axes, _, build = _field(rng, sizes, False)
    grid = build([slice(None)] * len(sizes))
    nx, ny = (int(k) for k in rng.integers(3, 5, 2))
    model = str(rng.choice(['bicubic', 'linear', 'akima', 'c_spline',
                            'steffen']))
    for _ in range(12):
        k = [int(rng.integers(6, len(v) - 7)) for v in axes[:2]] + [
            int(rng.integers(0, len(v) - 1)) for v in axes[2:]]
        at = [np.array([v[i] + rng.uniform(0.01, 0.99) * (v[i + 1] - v[i])])
              for v, i in zip(axes, k)]
        part = [slice(i - 6, i + 8) for i in k[:2]] + [slice(None)] * len(
            k[2:])
        extra = dict(zip('zu', at[2:]))
        call = lambda g: pyinterp.bicubic(
            g, at[0], at[1], nx=nx, ny=ny, fitting_model=model, **extra)
        a, b = call(grid), call(build(part))
        require(_same(a, b, 1e-9), f'grid {sizes} {model} {nx} {ny}: {a} at '
                f'{at}, {b} with the nodes around')
    return 'window_grid'


def window_calls(rng, n):
    import pyinterp
    n = min(n, 20000)
    sizes = [12, 13] + [int(k) for k in rng.integers(2, 5, rng.integers(3))]
    axes, data, build = _field(rng, sizes, False)
    grid = build([slice(None)] * len(sizes))
    at = _inside(rng, axes, n)
    at[0][rng.random(n) < 0.05] += 1e4
    at = _runs(rng, at)
    model = str(rng.choice(['bicubic', 'linear', 'akima', 'c_spline']))
    return pieces('window_calls', rng, n, lambda s, threads: pyinterp.bicubic(
        grid, at[0][s], at[1][s], **{k: v[s] for k, v in zip('zu', at[2:])},
        fitting_model=model, num_threads=threads))


def long_series(rng, n):
    import pyinterp
    n = max(n, 40)
    x = np.cumsum(rng.integers(1, 9, n) / 8.0)
    y = rng.normal(size=n)
    kind = str(rng.choice(['linear', 'polynomial', 'c_spline', 'akima',
                           'steffen']))
    half = int(rng.integers(3, 7))
    whole = pyinterp.Axis(x)
    for _ in range(20):
        k = int(rng.integers(10, n - 11))
        p = np.array([x[k] + rng.uniform(0.01, 0.49) * (x[k + 1] - x[k])])
        part = slice(k - 9, k + 11)
        a = pyinterp.interpolate1d(whole, y, p, half, kind=kind)
        b = pyinterp.interpolate1d(pyinterp.Axis(x[part]), y[part], p, half,
                                   kind=kind)
        require(_same(a, b, 1e-8), f'{n} nodes {kind} {half}: {a} at {p}, '
                f'{b} with the nodes around')
    return 'long_series'


def series_calls(rng, n):
    import pyinterp
    n = min(n, 20000)
    x = pyinterp.Axis(np.arange(20.0))
    y = rng.normal(size=20)
    at = rng.uniform(-1, 20, n)
    return pieces('series_calls', rng, n, lambda s, _: pyinterp.interpolate1d(
        x, y, at[s], bounds_error=False))


# -- filling ----------------------------------------------------------------
def large_loess(rng, n):
    import pyinterp.fill
    sizes = [int(rng.integers(30, 120)), int(rng.integers(30, 120))]
    _, data, build = _field(rng, sizes)
    data[rng.random(sizes) < rng.choice([0.3, 0.9])] = np.nan
    nx, ny = (int(k) for k in rng.integers(1, 5, 2))
    kind = str(rng.choice(['undefined', 'defined', 'all']))
    whole = pyinterp.fill.loess(
        build([slice(None)] * 2), nx, ny, kind,
        num_threads=int(rng.choice([0, 1, 3, 16])))
    for _ in range(12):
        i, j = (int(rng.integers(6, k - 7)) for k in sizes)
        part = [slice(i - 6, i + 8), slice(j - 6, j + 8)]
        alone = pyinterp.fill.loess(build(part), nx, ny, kind, num_threads=1)
        require(_same(whole[i:i + 2, j:j + 2], alone[6:8, 6:8], 1e-9),
                f'{sizes} {nx} {ny} {kind}: {whole[i:i + 2, j:j + 2]} at '
                f'{i, j}, {alone[6:8, 6:8]} with the cells around')
    return 'large_loess'


def large_relax(rng, n):
    import pyinterp.fill
    sizes = [int(rng.integers(15, 60)), int(rng.integers(15, 60))]
    circle = bool(rng.integers(2))
    x = np.arange(sizes[0]) * (360.0 / sizes[0])
    data = rng.normal(size=sizes)
    hole = rng.random(sizes) < rng.choice([0.2, 0.6])
    data[hole] = np.nan
    grid = pyinterp.Grid2D(pyinterp.Axis(x, is_circle=circle),
                           pyinterp.Axis(np.arange(sizes[1]) * 1.0), data)
    converged, got = pyinterp.fill.gauss_seidel(
        grid, max_iteration=20000, epsilon=1e-9,
        num_threads=int(rng.choice([0, 1, 3, 7])))
    require(bool(converged), f'{sizes}: not converged')
    require(np.array_equal(got[~hole], data[~hole]), f'{sizes}: data changed')
    if circle:
        wide = np.concatenate([got[-1:], got, got[:1]])
    else:
        wide = np.concatenate([got[1:2], got, got[-2:-1]])
    tall = np.concatenate([got[:, 1:2], got, got[:, -2:-1]], 1)
    residual = (wide[:-2] + wide[2:] + tall[:, :-2] + tall[:, 2:]) / 4 - got
    require(float(np.abs(residual[hole]).max(initial=0)) < 1e-6,
            f'{sizes} circle={circle}: residual '
            f'{np.abs(residual[hole]).max(initial=0)}')
    return 'large_relax'


def large_lines(rng, n):
    import pyinterp.fill
    n = max(n, 30)
    v = rng.normal(size=n)
    hole = rng.random(n) < rng.choice([0.1, 0.5, 0.95])
    a, b = np.sort(rng.choice(n, 2, replace=False))
    hole[[a, b]] = False
    known = np.flatnonzero(~hole)
    given = v.copy()
    given[hole] = np.nan
    got = pyinterp.fill.vector(given.copy())
    want = np.interp(np.arange(n), known, v[known])
    for side, (i, j) in ((np.arange(known[0]), known[[0, -1]]),
                         (np.arange(known[-1] + 1, n), known[[0, -1]])):
        base = i if len(side) and side[0] < i else j
        want[side] = v[base] + (v[j] - v[i]) * (side - base) / (j - i)
    require(np.allclose(got, want, rtol=1e-9, atol=1e-9),
            f'{n} items: {np.flatnonzero(~np.isclose(got, want))}')
    return 'large_lines'


# -- scattered data ---------------------------------------------------------
def _cloud(rng, n):
    import pyinterp
    n = int(min(n, 20000))
    tree = pyinterp.RTree(ecef=True)
    points = rng.normal(size=(n, 3)) * 1e5
    if rng.integers(2):
        points = np.round(points / 2e4) * 2e4
    values = rng.normal(size=n)
    how = rng.integers(3)
    if how == 0:
        tree.packing(points, values)
    elif how == 1:
        tree.insert(points, values)
    else:
        tree.packing(points[:n // 2], values[:n // 2])
        tree.insert(points[n // 2:], values[n // 2:])
    return tree, points, values


def large_query(rng, n):
    tree, points, values = _cloud(rng, n)
    n = len(points)
    require(len(tree) == n, f'{len(tree)} points out of {n}')
    at = rng.normal(size=(40, 3)) * 1.1e5
    k = int(rng.choice([1, 4, 20, 100]))
    gap = np.linalg.norm(points[None] - at[:, None], axis=-1)
    want = np.sort(gap, axis=1)[:, :k]
    distance, value = tree.query(at, k=k, within=False,
                                 num_threads=int(rng.choice([0, 1, 5])))
    require(distance.shape == (40, k), f'shape {distance.shape}')
    m = min(k, n)
    require(np.allclose(distance[:, :m], want[:, :m], rtol=1e-12) and bool(
        (distance[:, m:] == -1).all()), f'{n} points: distances')
    for i in range(0, 40, 7):
        for d, v in zip(distance[i, :m], value[i, :m]):
            require(bool((values[np.abs(gap[i] - d) <= 1e-6] == v).any()),
                    f'{n} points: value {v} at {d}')
    return f'large_query {k}'


def large_fit(rng, n):
    """Interpolation with the neighbours only."""
    import pyinterp
    n = int(np.clip(n, 300, 20000))
    points, values = rng.normal(size=(n, 3)) * 1e5, rng.normal(size=n)
    tree = pyinterp.RTree(ecef=True)
    tree.packing(points, values)
    k = int(rng.choice([4, 9, 20, 40]))
    within = bool(rng.integers(2))
    at = rng.normal(size=(6, 3)) * 5e4
    return tree, points, values, at, {
        'k': k, 'within': within, 'radius': float(rng.choice([6e4, 3e5]))}


def _fits(name, rng, n, call, rtol=1e-9):
    import pyinterp
    tree, points, values, at, options = large_fit(rng, n)
    threads = int(rng.choice([0, 1, 4]))
    got, count = call(tree, at, num_threads=threads, **options)
    for i, p in enumerate(at):
        gap = np.linalg.norm(points - p, axis=1)
        order = np.argsort(gap)[:options['k'] + 60]
        alone = pyinterp.RTree(ecef=True)
        alone.packing(points[order], values[order])
        # "within" must not depend on the points left out.
        if options['within'] and not all(
                (points[order][:, c] > p[c]).any() and
                (points[order][:, c] < p[c]).any() for c in range(3)):
            continue
        one, other = call(alone, p[None], num_threads=1, **options)
        require(_same(got[i:i + 1], one, rtol) and count[i] == other[0],
                f'{name} {len(points)} points {options}: {got[i]} from '
                f'{count[i]}, {one[0]} from {other[0]} with the points around')
    return f'{name} k={options["k"]}'


def fit_idw(rng, n):
    return _fits('idw', rng, n, lambda t, at, **o:
                 t.inverse_distance_weighting(at, **o))


def fit_rbf(rng, n):
    kind = str(rng.choice(['linear', 'multiquadric', 'inverse_multiquadric']))
    width = None if kind == 'linear' else 5e4
    return _fits(kind, rng, n, lambda t, at, **o: t.radial_basis_function(
        at, rbf=kind, epsilon=width, smooth=0.1, **o), 1e-5)


def fit_window(rng, n):
    kind = str(rng.choice(['hamming', 'blackman', 'parzen', 'boxcar']))
    return _fits(kind, rng, n, lambda t, at, **o: t.window_function(
        at, wf=kind, **o))


def fit_kriging(rng, n):
    kind = str(rng.choice(['matern_32', 'matern_52', 'whittle_matern',
                           'linear']))
    return _fits(kind, rng, n, lambda t, at, **o: t.universal_kriging(
        at, covariance=kind, alpha=2e5, **o), 1e-5)


def tree_calls(rng, n):
    import pyinterp
    n = min(n, 20000)
    lon, lat = rng.uniform(-20, 20, 60), rng.uniform(-20, 20, 60)
    x, y = rng.uniform(-20, 20, n), rng.uniform(-20, 20, n)
    tree = pyinterp.geodetic.RTree()
    tree.packing(lon, lat, rng.normal(size=60))
    name = str(rng.choice(['query', 'idw', 'rbf', 'window']))
    if name == 'query':
        call = lambda s, t: tuple(tree.query(
            x[s], y[s], k=3, num_threads=t))
    elif name == 'idw':
        call = lambda s, t: tuple(tree.inverse_distance_weighting(
            x[s], y[s], k=5, num_threads=t))
    elif name == 'rbf':
        call = lambda s, t: tuple(tree.radial_basis_function(
            x[s], y[s], k=5, num_threads=t))
    else:
        call = lambda s, t: tuple(tree.window_function(
            x[s], y[s], 1e6, k=5, num_threads=t))
    return pieces(f'geodetic {name}', rng, n, call)


# -- statistics -------------------------------------------------------------
def large_statistics(rng, n):
    import pyinterp
    shape = [(n, ), (n, 3), (3, n), (2, max(n // 2, 1), 2)][rng.integers(4)]
    values = rng.normal(size=shape) + float(rng.choice([0, 10]))
    values[rng.random(shape) < 0.1] = np.nan
    axis = None if rng.integers(2) else int(rng.integers(len(shape)))
    weights = rng.integers(1, 5, shape) / 4 if rng.integers(2) else None
    item = pyinterp.DescriptiveStatistics(
        values, weights, None if axis is None else (axis, ))
    w = np.where(np.isnan(values), 0, 1 if weights is None else weights)
    v = np.where(np.isnan(values), 0, values)
    with np.errstate(all='ignore'):
        total = w.sum(axis)
        mean = (w * v).sum(axis) / total
        centred = v - (mean if axis is None else np.expand_dims(mean, axis))
        m2, m3, m4 = ((w * centred**k).sum(axis) / total for k in (2, 3, 4))
        want = {'count': (~np.isnan(values)).sum(axis),
                'sum_of_weights': total, 'mean': mean, 'var': m2,
                'skewness': m3 / m2**1.5, 'kurtosis': m4 / m2**2 - 3}
    for name, value in want.items():
        got = getattr(item, name)()
        least = want['count'].reshape(-1) > 20
        require(np.allclose(got.reshape(-1)[least],
                            np.asarray(value).reshape(-1)[least], rtol=1e-6,
                            atol=1e-6),
                f'{shape} axis={axis}: {name} {got}, expected {value}')
    for name, limit in (('min', np.nanmin), ('max', np.nanmax)):
        got = getattr(item, name)().reshape(-1)[least]
        ref = np.asarray(getattr(np, 'nan' + name)(
            values, axis=axis)).reshape(-1)[least]
        if weights is None:
            require(np.array_equal(got, ref), f'{shape}: {name}')
    return 'large_statistics'


def large_stream(rng, n):
    import pyinterp
    n = min(n, 30000)
    values = rng.normal(size=n) if rng.integers(2) else rng.integers(
        0, 60, n).astype('f8')
    bins = int(rng.choice([5, 40, 100, 300]))
    item = pyinterp.StreamingHistogram(values, bin_count=bins)
    require(int(item.count()[0]) == n and int(item.size()[0]) <= bins,
            f'{n} samples: {item.count()} in {item.size()} bins')
    require(np.isclose(item.sum_of_weights()[0], n, rtol=1e-9) and np.isclose(
        item.mean()[0], values.mean(), rtol=1e-7, atol=1e-7),
            f'{n} samples: {item.sum_of_weights()}, {item.mean()}')
    require(item.min()[0] == values.min() and item.max()[0] == values.max(),
            f'{n} samples: extremes')
    found = item.bins().reshape(-1)
    found = found[found['weight'] > 0]
    require(bool((np.diff(found['value']) >= 0).all()), f'{n}: bins unsorted')
    q = [float(item.quantile(k / 20)[0]) for k in range(21)]
    require(bool((np.diff(q) >= -1e-9).all()) and
            q[0] >= values.min() - 1e-9 and q[-1] <= values.max() + 1e-9,
            f'{n} samples: quantiles {q}')
    return f'large_stream {bins}'


def _cells(rng, n):
    import pyinterp
    sizes = int(rng.integers(2, 90)), int(rng.integers(2, 90))
    axes = [np.arange(k) * 2.0 for k in sizes]
    x = rng.uniform(-1, 2 * sizes[0], n)
    y = rng.uniform(-1, 2 * sizes[1], n)
    z = rng.normal(size=n)
    i = np.clip(np.floor(x / 2 + 0.5), 0, sizes[0] - 1).astype(int)
    j = np.clip(np.floor(y / 2 + 0.5), 0, sizes[1] - 1).astype(int)
    return sizes, [pyinterp.Axis(v) for v in axes], x, y, z, i, j


def large_binning(rng, n):
    import pyinterp
    sizes, axes, x, y, z, i, j = _cells(rng, n)
    item = pyinterp.Binning2D(*axes)
    cut = int(rng.integers(0, n))
    item.push(x[:cut], y[:cut], z[:cut])
    item.push(x[cut:], y[cut:], z[cut:])
    count, total = np.zeros(sizes), np.zeros(sizes)
    np.add.at(count, (i, j), 1)
    np.add.at(total, (i, j), z)
    require(np.array_equal(item.variable('count'), count),
            f'{n} samples in {sizes} cells: count')
    full = count > 0
    require(np.allclose(item.variable('sum')[full], total[full], rtol=1e-9,
                        atol=1e-9), f'{n} samples in {sizes} cells: sum')
    linear = pyinterp.Binning2D(*axes)
    linear.push(x, y, z, simple=False)
    inside = ((x >= 0) & (x <= 2 * (sizes[0] - 1)) & (y >= 0) &
              (y <= 2 * (sizes[1] - 1)))
    weight = linear.variable('sum_of_weights')
    require(np.isclose(np.nansum(weight), inside.sum(), rtol=1e-6),
            f'{n} samples: weights {np.nansum(weight)} for {inside.sum()}')
    moment = np.nansum(weight * np.arange(sizes[0])[:, None] * 2)
    require(np.isclose(moment, x[inside].sum(), rtol=1e-6),
            f'{n} samples: centre {moment}, {x[inside].sum()}')
    line = pyinterp.Binning1D(axes[0])
    line.push(x, z)
    keep = (x >= 0) & (x <= 2 * (sizes[0] - 1))
    want = np.zeros(sizes[0])
    np.add.at(want, i[keep], 1)
    require(np.array_equal(line.variable('count').reshape(-1), want),
            f'{n} samples in {sizes[0]} cells: line')
    return 'large_binning'


def large_histogram(rng, n):
    import pyinterp
    sizes, axes, x, y, z, i, j = _cells(rng, n)
    item = pyinterp.Histogram2D(*axes, int(rng.choice([5, 20, 100])))
    item.push(x, y, z)
    count, total = np.zeros(sizes), np.zeros(sizes)
    np.add.at(count, (i, j), 1)
    np.add.at(total, (i, j), z)
    require(np.array_equal(item.variable('count'), count),
            f'{n} samples in {sizes} cells: count')
    full = count > 0
    require(np.allclose(item.variable('mean')[full],
                        (total / np.maximum(count, 1))[full], rtol=1e-6,
                        atol=1e-6), f'{n} samples in {sizes} cells: mean')
    least = np.full(sizes, np.inf)
    np.minimum.at(least, (i, j), z)
    require(np.array_equal(item.variable('min')[full], least[full]),
            f'{n} samples in {sizes} cells: min')
    return 'large_histogram'


# -- geodesy ----------------------------------------------------------------
def positions(rng, n):
    return (_turns(rng, rng.uniform(-180, 180, n)), rng.uniform(-90, 90, n),
            rng.uniform(-1e3, 1e6, n))


def large_ecef(rng, n):
    import pyinterp
    lon, lat, alt = positions(rng, n)
    item = pyinterp.geodetic.Coordinates()
    other = pyinterp.geodetic.Coordinates(
        pyinterp.geodetic.Spheroid((6370e3, 0.01)))
    x, y, z = item.lla_to_ecef(lon, lat, alt)
    return pieces('ecef', rng, n, lambda s, t: (
        *item.lla_to_ecef(lon[s], lat[s], alt[s], num_threads=t),
        *item.ecef_to_lla(x[s], y[s], z[s], num_threads=t),
        *item.transform(other, lon[s], lat[s], alt[s], num_threads=t)))


def large_distances(rng, n):
    import pyinterp
    n = min(n, 20000)
    a, b = positions(rng, n), positions(rng, n)
    columns = _runs(rng, [*a[:2], *b[:2]])
    a, b = columns[:2], columns[2:]
    kind = str(rng.choice(['andoyer', 'thomas', 'vincenty']))
    return pieces('distances', rng, n, lambda s, t:
                  pyinterp.geodetic.coordinate_distances(
                      a[0][s], a[1][s], b[0][s], b[1][s], strategy=kind,
                      num_threads=t))


def large_line(rng, n):
    import pyinterp
    n = int(np.clip(n, 30, 5000))
    lat = np.cumsum(rng.uniform(-0.02, 0.03, n)) % 60
    lon = np.cumsum(rng.uniform(0, 0.03, n))
    line = pyinterp.geodetic.LineString(lon, lat)
    require(len(line) == n, f'{len(line)} points of {n}')
    got = line.curvilinear_distance(strategy='thomas')
    steps = pyinterp.geodetic.coordinate_distances(
        lon[:-1], lat[:-1], lon[1:], lat[1:], strategy='thomas')
    require(np.allclose(got, np.concatenate([[0], np.cumsum(steps)]),
                        rtol=1e-9), f'{n} points: distances')
    near = line.closest_point(pyinterp.geodetic.Point(lon[n // 2],
                                                      lat[n // 2]))
    require(abs(near.lon - lon[n // 2]) < 1e-6 and
            abs(near.lat - lat[n // 2]) < 1e-6, f'{n} points: closest')
    return 'large_line'


def large_polygon(rng, n):
    """A convex ring of many points."""
    import pyinterp
    g = pyinterp.geodetic
    n = int(np.clip(n, 30, 1500))
    angle = np.arange(n) * (2 * np.pi / n)
    lon0, lat0, size = (float(rng.uniform(-150, 150)),
                        float(rng.uniform(-50, 50)), 8.0)
    ring = g.LineString(
        np.append(lon0 + size * np.cos(angle), lon0 + size),
        np.append(lat0 - size * np.sin(angle), lat0))
    shape = g.Polygon(list(ring))
    r = rng.uniform(0, 1.6, 3000) * size
    r = np.where(np.abs(r / size - 1) < 0.03, 0.5 * size, r)
    t = rng.uniform(0, 2 * np.pi, 3000)
    got = shape.covered_by(lon0 + r * np.cos(t), lat0 + r * np.sin(t),
                           num_threads=int(rng.choice([0, 1, 5])))
    require(np.array_equal(got.astype(bool), r < size),
            f'ring of {n} points: {np.flatnonzero(got != (r < size))}')
    # Green's theorem on the authalic sphere.
    area = shape.area()
    rough = np.pi * size**2 * np.cos(np.radians(lat0)) * 111.19e3**2
    require(0.95 < area / rough < 1.05, f'ring of {n}: {area}, {rough}')
    hole = g.MultiPolygon([shape, g.Polygon(
        [g.Point(p.lon + 60.0, p.lat) for p in ring])])
    require(abs(hole.area() / area - 2) < 1e-9, f'ring of {n}: twice')
    return 'large_polygon'


def large_crossing(rng, n):
    import pyinterp
    n = int(np.clip(n, 60, 4000))
    lat = np.linspace(-40, 40, n)
    up = rng.uniform(-20, 20) + lat * rng.uniform(0.2, 0.6) + 2 * np.sin(
        lat / 20)
    down = rng.uniform(-5, 5) + up[n // 2] - lat * rng.uniform(0.2, 0.6)
    where = np.flatnonzero(np.diff(np.sign(up - down)))
    if len(where) != 1:
        return None
    k = int(where[0])
    g = pyinterp.core.geodetic
    call = lambda part: g.calculate_crossover(
        up[part], lat[part], down[part], lat[part])
    found = call(slice(None))
    require(found is not None, f'{n} points: no crossing near {k}')
    point, (i, j) = found
    require(abs(i - k) <= 2 and abs(j - k) <= 2, f'{i, j} near {k}')
    part = slice(max(k - 9, 0), k + 11)
    alone = call(part)
    require(alone is not None, f'{n} points: no crossing with a part')
    require(abs(alone[0].lon - point.lon) < 1e-7 and
            abs(alone[0].lat - point.lat) < 1e-7 and
            (alone[1][0] + part.start, alone[1][1] + part.start) == (i, j),
            f'{n} points: {point.lon, point.lat, i, j} with the whole, '
            f'{alone[0].lon, alone[0].lat, alone[1]} with a part')
    return 'large_crossing'


def large_longitudes(rng, n):
    import pyinterp
    lon = _turns(rng, rng.uniform(-180, 180, n))
    low = float(rng.choice([-180, 0, 17.5]))
    got = pyinterp.geodetic.normalize_longitudes(lon.copy(), low)
    want = (lon - low) % 360 + low
    gap = np.abs((got - want + 180) % 360 - 180)
    require(bool((got >= low).all() and (got < low + 360).all() and
                 (gap < 1e-9).all()), f'{n} longitudes from {low}')
    return 'large_longitudes'


# -- geohash ----------------------------------------------------------------
def large_codes(rng, n):
    import pyinterp
    lon, lat, _ = positions(rng, n)
    chars = int(rng.integers(1, 13))
    codes = pyinterp.geohash.encode(lon, lat, chars)
    require(codes.dtype == np.dtype(f'S{chars}'), f'type {codes.dtype}')
    bits = int(rng.integers(1, 65))
    return pieces('codes', rng, n, lambda s, _: (
        pyinterp.geohash.encode(lon[s], lat[s], chars),
        *pyinterp.geohash.decode(codes[s]),
        pyinterp.geohash.int64.encode(lon[s], lat[s], bits)))


def large_areas(rng, n):
    import pyinterp
    lon, lat, _ = positions(rng, n)
    codes = pyinterp.geohash.encode(lon, lat, int(rng.integers(1, 9)))
    return pieces('areas', rng, n, lambda s, _: pyinterp.geohash.area(
        codes[s]))


def large_shapes(rng, n):
    """Shapes thinner than cells, across many of them."""
    import pyinterp
    g = pyinterp.geodetic
    chars = int(rng.integers(2, 6))
    wide = 360 / 2**((5 * chars + 1) // 2)
    high = 180 / 2**(5 * chars // 2)
    parts, lons, lats = [], [], []
    for _ in range(int(rng.integers(1, 3))):
        # A parallelogram, its long sides cut in a few edges.
        columns = int(rng.integers(3, 45))
        columns = min(columns, int(80 / wide))
        rows = min(int(rng.integers(3, 45)), int(50 / high))
        dx, dy = columns * wide, rows * high * float(rng.choice([-1, 1]))
        thin = float(rng.choice([0.02, 0.2, 0.7])) * wide
        if not parts or chars < 4:
            x0 = float(rng.uniform(-160, 155 - dx))
            if rng.integers(3) == 0:
                # Across the date line.
                x0 = 180 - dx * float(rng.uniform(0.05, 0.95))
            y0 = float(rng.uniform(-55 + max(-dy, 0), 55 - max(dy, 0)))
        else:
            x0 += 3 * wide * float(rng.uniform(-1, 1))
        steps = 8
        t = np.linspace(0, 1, steps + 1)
        lon = np.concatenate([x0 + t * dx, x0 + thin + t[::-1] * dx])
        lat = np.concatenate([y0 + t * dy, y0 + t[::-1] * dy])
        if dy < 0:
            lon, lat = lon[::-1], lat[::-1]
        lon, lat = np.append(lon, lon[0]), np.append(lat, lat[0])
        lon = np.where(lon > 180, lon - 360, lon)
        parts.append(g.Polygon([g.Point(a, b) for a, b in zip(lon, lat)]))
        at = np.repeat(np.linspace(0.01, 0.99, 8 * max(columns, rows)), 3)
        lons.append(x0 + thin * np.tile([0.1, 0.5, 0.9], len(at) // 3) +
                    at * dx)
        lats.append(y0 + at * dy)
    shape = parts[0] if len(parts) == 1 else g.MultiPolygon(parts)
    codes = pyinterp.geohash.bounding_boxes(
        shape, precision=chars, num_threads=int(rng.choice([0, 1, 3, 7])))
    held = set(codes.tolist())
    require(len(held) == len(codes), f'{chars}: duplicates')
    lon, lat = np.concatenate(lons), np.concatenate(lats)
    lon = np.where(lon > 180, lon - 360, lon)
    # Edges are geodesics: only positions that are clearly inside.
    inside = np.zeros(len(lon), dtype=bool)
    for part in parts:
        inside |= part.covered_by(lon, lat).astype(bool)
    inner = pyinterp.geohash.encode(lon[inside], lat[inside], chars)
    missing = set(inner.tolist()) - held
    require(not missing, f'{chars}: {len(missing)} cells are missing, such '
            f'as {sorted(missing)[:3]}')
    # Cells hold or touch a part of the shape.
    x, y = pyinterp.geohash.decode(codes)
    for a, b, name in zip(x, y, codes):
        require(bool(((np.abs((lon - a + 180) % 360 - 180) < wide * 2.5) &
                      (np.abs(lat - b) < high * 2.5)).any()),
                f'{chars}: cell {name} is away from the shape')
    return f'large_shapes {chars}'


def large_boxes(rng, n):
    """Cells of a box: those of a sample of its positions, each once."""
    import pyinterp
    g = pyinterp.geodetic
    chars = int(rng.integers(2, 6))
    span = {2: 120.0, 3: 40.0, 4: 12.0, 5: 2.0}[chars]
    a, b = float(rng.uniform(-180, 180 - span)), float(
        rng.uniform(-90, 90 - span / 2))
    box = g.Box(g.Point(a, b), g.Point(a + span, b + span / 2))
    codes = pyinterp.geohash.bounding_boxes(box, precision=chars)
    require(len(set(codes.tolist())) == len(codes), f'{chars}: duplicates')
    lon, lat = rng.uniform(a, a + span, 5000), rng.uniform(
        b, b + span / 2, 5000)
    inner = pyinterp.geohash.encode(lon, lat, chars)
    missing = set(inner.tolist()) - set(codes.tolist())
    require(not missing, f'{chars} {a, b, span}: missing {missing}')
    wide = 360 / 2**((5 * chars + 1) // 2)
    high = 180 / 2**(5 * chars // 2)
    x, y = pyinterp.geohash.decode(codes)
    require(bool((x > a - wide).all() and (x < a + span + wide).all() and
                 (y > b - high).all() and (y < b + span / 2 + high).all()),
            f'{chars} {a, b, span}: cells outside')
    return f'large_boxes {chars}'


OPERATIONS = {
    'A01': [axis, axis_calls], 'A02': [circle], 'A03': [axis_values],
    'T01': [calendar], 'T02': [dates], 'T04': [period_lists],
    'G01': [linear_grid, local_grid, grid_calls], 'G02': [grid_calls],
    'G04': [grid_calls, window_calls, large_ecef, tree_calls],
    'W01': [window_grid, window_calls], 'W02': [long_series, series_calls],
    'F01': [large_loess], 'F02': [large_relax], 'F03': [large_lines],
    'R01': [large_query], 'R02': [fit_idw, fit_rbf, fit_window],
    'R03': [fit_kriging], 'R04': [tree_calls],
    'S01': [large_statistics], 'S03': [large_stream],
    'S04': [large_binning], 'S05': [large_histogram],
    'E01': [large_ecef], 'E02': [large_distances, large_line],
    'E03': [large_polygon], 'E04': [large_crossing],
    'E06': [large_longitudes],
    'H01': [large_codes], 'H02': [large_areas, large_boxes, large_shapes],
}


def facet(name: str, quick: int = 24):
    operations = OPERATIONS[name]
    cases = st.fixed_dictionaries({
        'op': st.integers(0, len(operations) - 1),
        'size': st.one_of(st.integers(30, 300), st.integers(300, 3000),
                          st.integers(3000, 60000),
                          st.sampled_from([64, 100, 128, 256, 1000, 1024,
                                           4096, 65536])),
        'seed': st.integers(0, 2**20)})

    def run(case):
        return operations[case['op']](np.random.default_rng(case['seed']),
                                      case['size'])

    return Facet('large', cases, run, quick * min(len(operations), 3), 1,
                 'Large inputs and structures.')
