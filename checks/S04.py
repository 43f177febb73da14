"""S04: binning puts every sample in the right bins with the right weight."""
import math

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
import pyinterp.geodetic as geodetic
from vf import defaults, gen, large, stats
from vf.engine import Facet, require

PARTS = ['axis', 'binning', 'geodetic']
RULE = """Grids whose axes are regular or not, increasing or decreasing, or
longitude circles starting anywhere, in both precisions; sequences of pushes
of samples in the cells, on the nodes and on the edges, at half cells, outside
of the grid, on the other turns of the circle, with undefined values and
coordinates; simple, linear and geodetic linear binning, and one-dimensional
binning with a range and weights. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a sample falls in the grid. The
oracle looks for the nearest bin or the cell by exhaustive search and computes
the weights from the areas of the opposite rectangles; the areas of the
geodetic cells come from pyinterp.geodetic.Polygon, that E03 checks."""
ASSUMPTIONS = [
    'A sample at equal distance of two bins may fall in either.',
    'Samples outside the grid fall in the nearest bin with the simple '
    'binning; the linear binning ignores them.',
    'Weights below the rounding error are ignored.',
]


@st.composite
def grid_axis(draw, name, circle):
    if circle:
        axis = draw(gen.circle_values(8))
        return {'v': axis['v'], 'circle': True}
    low, high = (-80, 80) if name == 'y' else (-170, 170)
    v = draw(gen.axis_values(2, 7, origin=st.just(0.0), scale=st.sampled_from(
        [1.0, 0.5, 0.25, 2.0])))['v']
    lo, hi = min(v), max(v)
    if hi - lo > high - low:
        v = [x * (high - low) / (hi - lo) for x in v]
        lo, hi = min(v), max(v)
    start = low + (high - low - (hi - lo)) * draw(st.integers(0, 8)) / 8
    return {'v': [x - lo + start for x in v], 'circle': False}


@st.composite
def sample(draw, nx, ny):
    return [list(draw(gen.cells(nx, 1))), list(draw(gen.cells(ny, 1))),
            draw(st.integers(-200, 200)) / 8,
            draw(st.sampled_from([0, 0, 0, 1, -1])),
            draw(st.sampled_from([''] * 12 + ['x', 'y', 'z']))]


@st.composite
def case_of(draw):
    mode = draw(st.sampled_from(['simple', 'linear', 'linear', 'geo']))
    x = draw(grid_axis('x', draw(st.booleans())))
    y = draw(grid_axis('y', False))
    if mode == 'geo':
        # Cells of a few degrees, whose edges are close to the parallels.
        if x['circle']:
            x['v'] = [x['v'][0] + 5.0 * k for k in range(72)][
                ::draw(st.sampled_from([1, -1]))]
        for a in (x, y):
            widest = max(abs(q - p) for p, q in zip(a['v'], a['v'][1:]))
            if widest > 5:
                a['v'] = [p * 5 / widest for p in a['v']]
    nx = len(x['v']) + (2 if x['circle'] else 0)
    return {'x': x, 'y': y, 'mode': mode,
        'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
        'pushes': draw(st.lists(st.lists(
            sample(nx, len(y['v'])), min_size=1, max_size=12), min_size=1,
            max_size=3)),
        'clear': draw(st.integers(0, 5)) == 0}


def coordinates(axis, position, turn):
    v = axis['v']
    if not axis['circle']:
        return gen.place(v, *position)
    n = len(v)
    sign = 1 if v[-1] > v[0] else -1
    ring = v + [v[0] + sign * 360.0]
    return gen.place(ring, position[0] % n, position[1]) + 360 * turn


def nearest(axis, c):
    """Bins at the smallest distance of a coordinate."""
    v = np.array(axis['v'])
    d = np.abs(v - c)
    if axis['circle']:
        d = np.abs((v - c + 180) % 360 - 180)
    step = np.diff(np.sort(v)).min()
    return np.flatnonzero(d <= d.min() + 1e-9 * step + 1e-13 * max(
        np.abs(v).max(), abs(c))).tolist()


def cell(axis, c):
    """Cells that may hold a coordinate: (i0, i1, v0, v1, c)."""
    v = axis['v']
    n = len(v)
    pairs = [(i, i + 1, v[i], v[i + 1]) for i in range(n - 1)]
    if axis['circle']:
        sign = 1 if v[-1] > v[0] else -1
        pairs.append((n - 1, 0, v[-1], v[0] + sign * 360.0))
    step = np.diff(np.sort(v)).min()
    tol = 1e-9 * step + 1e-13 * max(max(map(abs, v)), abs(c))
    result = []
    for i, j, a, b in pairs:
        lo, hi = min(a, b), max(a, b)
        here = c
        if axis['circle']:
            here = lo - tol + (c - (lo - tol)) % 360.0
        if lo - tol <= here <= hi + tol:
            result.append((i, j, a, b, min(max(here, lo), hi)))
    return result


def area(points):
    return abs(geodetic.Polygon(
        [geodetic.Point(*p) for p in points + points[:1]]).area())


def shares(x, y, mode):
    """Weights of the corners (0, 0), (0, 1), (1, 0), (1, 1)."""
    _, _, x0, x1, c = x
    _, _, y0, y1, d = y
    if mode == 'geo':
        if x0 > x1:
            x0, x1 = x1, x0
            flip = True
        else:
            flip = False
        whole = area([(x0, y0), (x0, y1), (x1, y1), (x1, y0)])
        result = []
        for cx, cy in ((x1, y1), (x1, y0), (x0, y1), (x0, y0)):
            size = 0.0
            if cx != c and cy != d:
                size = area([(c, d), (c, cy), (cx, cy), (cx, d)]) / whole
            result.append(size)
        return result if not flip else [result[2], result[3], result[0],
                                        result[1]]
    t, u = (c - x0) / (x1 - x0), (d - y0) / (y1 - y0)
    return [(1 - t) * (1 - u), (1 - t) * u, t * (1 - u), t * u]


def run(case):
    ax, ay, mode = case['x'], case['y'], case['mode']
    dtype = np.dtype(case['dtype'])
    x_axis = core.Axis(np.array(ax['v']), is_circle=ax['circle'])
    y_axis = core.Axis(np.array(ay['v']))
    grid = pyinterp.Binning2D(
        x_axis, y_axis, geodetic.Spheroid() if mode == 'geo' else None,
        dtype=dtype)
    where = f'{case}'
    nx, ny = len(ax['v']), len(ay['v'])
    fine = dtype == np.float64
    eps = float(np.finfo(dtype).eps)
    sure = {}
    total_weight = 0.0
    doubtful = False
    count = 0
    for step, push in enumerate(case['pushes']):
        xs, ys, zs = [], [], []
        for px, py, z, turn, hole in push:
            xs.append(math.nan if hole == 'x' else coordinates(ax, px, turn))
            ys.append(math.nan if hole == 'y' else coordinates(ay, py, 0))
            zs.append(math.nan if hole == 'z' else z)
        xs, ys, zs = (np.array(a, dtype) for a in (xs, ys, zs))
        if case['clear'] and step == 1:
            grid.clear()
            sure, total_weight, count = {}, 0.0, 0
            doubtful = False
        kept = [a.copy() for a in (xs, ys, zs)]
        grid.push(xs, ys, zs, simple=mode == 'simple')
        require(all(np.array_equal(a, b, equal_nan=True)
                    for a, b in zip((xs, ys, zs), kept)),
                f'{where}: samples modified')
        for c, d, z in zip(xs.tolist(), ys.tolist(), zs.tolist()):
            if c != c or d != d or z != z:
                continue
            if mode == 'simple':
                i, j = nearest(ax, c), nearest(ay, d)
                total_weight += 1
                count += 1
                if len(i) * len(j) > 1:
                    doubtful = True
                else:
                    sure.setdefault((i[0], j[0]), []).append((z, 1.0))
                continue
            i, j = cell(ax, c), cell(ay, d)
            if not i or not j:
                continue
            # Samples on the very border of a decimal grid.
            border = any(
                not a['circle'] and (abs(q - a['v'][k]) < 1e-6)
                and q != a['v'][k] for a, q in ((ax, c), (ay, d))
                for k in (0, -1))
            if border:
                doubtful = True
                total_weight = None
                break
            weights = shares(i[0], j[0], mode)
            count += 1
            total_weight += sum(weights)
            require(abs(sum(weights) - 1) < (0.02 if mode == 'geo' else 1e-9),
                    f'{where}: areas of the cell {weights}')
            a, b = i[0], j[0]
            for w, (k, v), (m, u) in zip(weights, (
                    (a[0], a[2]), (a[0], a[2]), (a[1], a[3]), (a[1], a[3])), (
                        (b[0], b[2]), (b[1], b[3]), (b[0], b[2]),
                        (b[1], b[3]))):
                if w > 1e-9 if fine else w > 1e-6:
                    sure.setdefault((k, m), []).append((z, w))
        if total_weight is None:
            return None
    tables = {n: grid.variable(n) for n in (
        'count', 'sum_of_weights', 'mean', 'min', 'max', 'sum', 'variance',
        'skewness', 'kurtosis')}
    for name, table in tables.items():
        require(table.shape == (nx, ny), f'{where}: shape of {name}')
    got = float(tables['sum_of_weights'].sum())
    tolerance = (1e-4 if mode == 'geo' else 1e-9 if fine else 1e-4) * (
        count + 1)
    require(abs(got - total_weight) <= tolerance,
            f'{where}: total weight {got}, expected {total_weight}')
    if doubtful:
        for (i, j), group in sure.items():
            require(tables['count'][i, j] >= len(group),
                    f'{where}: samples missing in bin {i}, {j}')
        return None
    for i in range(nx):
        for j in range(ny):
            group = sure.get((i, j), [])
            here = {n: t[i, j] for n, t in tables.items()}
            if mode != 'simple':
                # Bins that only received negligible weights.
                require(abs(here['sum_of_weights'] - sum(
                    w for _, w in group)) <= tolerance,
                    f"{where}: weight {here['sum_of_weights']} in bin "
                    f'{i}, {j}, expected {sum(w for _, w in group)}')
                if here['count'] != len(group) or any(
                        w < 1e-3 for _, w in group):
                    # Negligible weights may be counted or not.
                    require(not group or here['count'] >= len(group)
                            or any(w < 1e-5 for _, w in group),
                            f'{where}: samples missing in bin {i}, {j}')
                    continue
            if mode == 'geo' and group:
                # The areas are known to a few parts per hundred thousand.
                for name, best in (('min', min), ('max', max)):
                    expected = best(z * w for z, w in group)
                    require(abs(here.pop(name) - expected) < 1e-3 * (
                        1 + max(abs(z) for z, _ in group)),
                        f'{where}: {name} in bin {i}, {j}')
            problem = stats.compare(
                here, stats.reference(group),
                eps * 8 if mode == 'simple' else
                1e-5 if mode == 'geo' else max(eps * 8, 3e-10))
            require(problem is None, f'{where}: bin {i}, {j}: {problem}')
    return [mode, case['dtype'], 'circle' if ax['circle'] else 'plane'
            ] if count else None


@st.composite
def line_case(draw):
    circle = draw(st.booleans())
    x = draw(grid_axis('x', circle))
    n = len(x['v']) + (2 if circle else 0)
    return {'x': x, 'range': draw(st.none() | st.lists(
        st.tuples(st.integers(-1, n - 1), gen.fraction), min_size=2,
        max_size=2)), 'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
        'weights': draw(st.booleans()),
        'pushes': draw(st.lists(st.lists(sample(n, 2), min_size=1,
                                         max_size=15), min_size=1,
                                max_size=3)),
        'pickle': draw(st.booleans())}


def run_line(case):
    ax = case['x']
    dtype = np.dtype(case['dtype'])
    axis = core.Axis(np.array(ax['v']), is_circle=ax['circle'])
    window = None
    if case['range']:
        window = tuple(sorted(coordinates(ax, p, 0) for p in case['range']))
    grid = pyinterp.Binning1D(axis, window, dtype=dtype)
    where = f'{case}'
    low, high = window or (min(ax['v']), max(ax['v']))
    require(np.allclose(grid.range(), (low, high), rtol=1e-12, atol=1e-9),
            f'{where}: range {grid.range()}, expected {(low, high)}')
    low, high = grid.range()
    groups = {}
    rng = np.random.default_rng(len(where))
    count, doubtful = 0, 0
    for push in case['pushes']:
        xs = np.array([math.nan if s[4] == 'x' else coordinates(
            ax, s[0], s[3]) for s in push], dtype)
        zs = np.array([math.nan if s[4] == 'z' else s[2] for s in push],
                      dtype)
        ws = (rng.integers(1, 9, len(push)) / 4).astype(dtype)
        grid.push(xs, zs, ws if case['weights'] else None)
        if case['pickle']:
            import pickle
            grid = pickle.loads(pickle.dumps(grid))
            require(tuple(grid.range()) == (low, high),
                    f'{where}: range {grid.range()} after a pickle')
        for c, z, w in zip(xs.tolist(), zs.tolist(), ws.tolist()):
            if c != c or z != z or not low <= c <= high:
                continue
            i = nearest(ax, c)
            count += 1
            if len(i) > 1:
                doubtful += 1
                continue
            groups.setdefault(i[0], []).append(
                (z, w if case['weights'] else 1.0))
    tables = {n: grid.variable(n).reshape(-1) for n in (
        'count', 'sum_of_weights', 'mean', 'min', 'max', 'sum', 'variance',
        'skewness', 'kurtosis')}
    require(int(tables['count'].sum()) == count,
            f"{where}: {tables['count'].sum()} samples, expected {count}")
    for i in range(len(ax['v'])):
        group = groups.get(i, [])
        here = {n: t[i] for n, t in tables.items()}
        if doubtful:
            require(here['count'] >= len(group),
                    f'{where}: samples missing in bin {i}')
            continue
        problem = stats.compare(here, stats.reference(group),
                                8 * float(np.finfo(dtype).eps))
        require(problem is None, f'{where}: bin {i}: {problem}')
    return ['weights' if case['weights'] else 'plain',
            'range' if window else 'whole'] if count - doubtful else None


@st.composite
def shape_case(draw):
    return {'kind': draw(st.sampled_from(['1d', '2d', 'h'])),
            'sizes': draw(st.lists(st.integers(0, 5), min_size=3,
                                   max_size=3).filter(
                                       lambda s: len(set(s)) > 1)),
            'weights': draw(st.booleans())}


def run_shape(case):
    """Vectors of different sizes are refused and nothing is counted."""
    x = core.Axis(np.arange(4.0))
    a, b, c = (np.ones(n) for n in case['sizes'])
    if case['kind'] == '1d':
        grid = pyinterp.Binning1D(x)
        if not case['weights'] and len(a) == len(b):
            return None
        args = (a, b, c if case['weights'] else None)
    else:
        grid = pyinterp.Binning2D(x, x)
        args = (a, b, c)
    try:
        grid.push(*args)
    except ValueError:
        require(not grid.variable('count').any(),
                f'{case}: samples of a refused push are counted')
        return case['kind']
    require(False, f'{case}: accepted')


@st.composite
def foreign_case(draw, kinds=('1d', '2d', 'geo')):
    """Two grids which may differ by a single property."""
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(2, 6))
    return {'kind': kind, 'n': n, 'dtype': draw(st.sampled_from(['f8', 'f4'])),
            'change': draw(st.sampled_from([
                'none', 'x', 'x', 'y', 'y', 'both', 'shift', 'flip', 'circle',
                'length', 'wgs', 'wgs'])),
            'where': draw(st.integers(0, n - 1)),
            'uneven': draw(st.booleans()), 'start': draw(st.integers(-9, 9)),
            'op': draw(st.sampled_from(['add', 'iadd']))}


def foreign_axes(case):
    """Axes of the second grid, and whether the grids are the same."""
    v = case['start'] + np.arange(case['n']) * 2.0
    if case['uneven']:
        v = v + np.arange(case['n']) ** 2 / 4
    other, change = v.copy(), case['change']
    other[case['where']] += 0.5
    axes = {'x': (v, False), 'y': (v, False)}
    if change in ('x', 'both'):
        axes['x'] = (other, False)
    if change in ('y', 'both'):
        axes['y'] = (other, False)
    if change == 'shift':
        axes['y'] = (v + 360, False)
    if change == 'flip':
        axes['y'] = (v[::-1].copy(), False)
    if change == 'length':
        axes['y'] = (np.append(v, v[-1] + 2), False)
    if change == 'circle':
        # As long as the period is not covered the flag changes nothing.
        step = 360 / (case['n'] + 2)
        turn = np.arange(case['n'] + 2) * step
        return turn, {'x': (turn, True), 'y': (turn, False)}
    return v, axes


def run_foreign(case, make):
    """Grids which are not the same cannot be combined."""
    v, axes = foreign_axes(case)
    line = case['kind'] == '1d'
    change = case['change']
    if line and change not in ('none', 'x', 'both', 'circle'):
        if change == 'wgs':
            return None
        axes = {'x': axes['y'], 'y': axes['y']}
    first = make(case, core.Axis(v), core.Axis(v), False)
    second = make(case, core.Axis(axes['x'][0], is_circle=axes['x'][1]),
                  core.Axis(axes['y'][0]), change == 'wgs')
    same = change == 'none'
    for grid, w in ((first, v), (second, axes['x'][0])):
        where = w[:1].astype(case['dtype'])
        args = (where, where, np.ones(1, case['dtype']))
        grid.push(*(args[1:] if line else args))
    # The second sample, on its own axes, falls somewhere.
    before = [g.variable('count').copy() for g in (first, second)]
    try:
        if case['op'] == 'add':
            result = first + second
        else:
            first._instance += second._instance
            result = first
    except ValueError:
        require(not same, f'{case}: the same grids are refused')
        require(all(np.array_equal(g.variable('count'), b)
                    for g, b in zip((first, second), before)),
                f'{case}: a refused combination changed the grids')
        return change
    require(same, f'{case}: different grids are combined')
    require(np.array_equal(result.variable('count'), before[0] + before[1]),
            f'{case}: samples lost')
    return change


def make_binning(case, x, y, moved):
    if case['kind'] == '1d':
        return pyinterp.Binning1D(x, dtype=np.dtype(case['dtype']))
    wgs = None
    if case['kind'] == 'geo':
        wgs = pyinterp.geodetic.Spheroid(
            (6378136.3, 1 / 298.257) if moved else (6378137.0,
                                                    1 / 298.257223563))
    elif moved:
        wgs = pyinterp.geodetic.Spheroid()
    return pyinterp.Binning2D(x, y, wgs, dtype=np.dtype(case['dtype']))


FACETS = [
    Facet('foreign', foreign_case, lambda case: run_foreign(
        case, make_binning), quick=300, doc='grids which differ are not '
        'combined'),
    Facet('grid', case_of, run, quick=1000, shards=5, doc='simple, linear and '
          'geodetic binning of sequences of pushes'),
    Facet('line', line_case, run_line, quick=700, shards=2, doc='one-'
          'dimensional binning with range and weights'),
    Facet('shapes', shape_case, run_shape, quick=200, doc='vectors of '
          'different sizes are refused'),
    defaults.facet('S04'),
    large.facet('S04'),
]
