"""W01: spline interpolation of grids fits its window."""
import itertools

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import defaults, gen, grids, large, models
from vf.engine import Facet, require

PARTS = ['bicubic']
RULE = """Grids of two to four dimensions (plain, circular and regional
longitudes, evenly spaced or not, dates on the third axis, undefined nodes),
every fitting model, windows of 1 to 4 cells on each side, every boundary rule,
points at nodes and anywhere. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a defined value strictly inside a
cell. The oracle builds the window in Python (nodes beyond the ends: repeated,
wrapped or mirrored values which go on with the spacing of these nodes), fits
the model written from its definition along x, then y, then interpolates
linearly along the other axes."""
ASSUMPTIONS = [
    'X and Y axes are increasing (decreasing ones are refused).',
    'The model is fitted along x first, as the documentation of the spline '
    'class states.',
    'A point on a node may use the window on either side.',
    'Akima fits are not compared where the definition is discontinuous.',
    'On a circle the window does not exceed the circle.',
]
MODELS = ['linear', 'bicubic', 'polynomial', 'c_spline', 'c_spline_periodic',
          'akima', 'akima_periodic', 'steffen']


@st.composite
def window_case(draw, dims):
    method = draw(st.sampled_from(MODELS))
    half = (models.LEAST[method] + 1) // 2
    least = max(2 * half, 3)
    nx, ny = draw(st.integers(half, 4)), draw(st.integers(half, 4))
    size = 10 if dims == 2 else 8
    frame = draw(st.sampled_from(['plain', 'plain', 'circle', 'part']))
    if frame == 'circle':
        x = draw(gen.circle_values(size, min_size=least, descending=False))['v']
        nx = min(nx, len(x) // 2)
    else:
        x = draw(gen.axis_values(least, size, descending=False,
                                 origin=st.integers(-400, 400).map(
                                     lambda k: k / 4) if frame == 'part'
                                 else gen.number,
                                 scale=st.sampled_from([0.5, 1.0, 0.25, 0.1]))
                 )['v']
    y = draw(gen.axis_values(least, size, descending=False,
                             scale=st.sampled_from([1.0, 0.5, 0.1])))['v']
    axes = [x, y]
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(4))
            unit, v = time['unit'], time['v']
            axes.append(v)
        else:
            axes.append(draw(grids.real_axis(4)))
    if dims > 3:
        axes.append(draw(grids.real_axis(3)))
    points = draw(st.lists(st.tuples(
        *[gen.inside(len(v) + (1 if k == 0 and frame == 'circle' else 0))
          for k, v in enumerate(axes)]), min_size=1, max_size=5))
    points = [[(c, int(f * 2**16) / 2**16) for c, f in p] for p in points]
    return {'axes': axes, 'unit': unit, 'method': method, 'frame': frame,
            'nx': nx, 'ny': ny, 'points': points,
            'boundary': draw(st.sampled_from(
                ['undef', 'undef', 'expand', 'wrap', 'sym'])),
            'holes': draw(st.lists(st.tuples(*[
                st.integers(0, len(v) - 1) for v in axes]), max_size=2)),
            'turn': draw(st.integers(-1, 1)),
            'seed': draw(st.integers(0, 999)),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'threads': draw(st.sampled_from([1, 1, 2, 0]))}


def window(v, cell, half, rule, circle):
    """Indexes and coordinates of the window of a cell, None if it leaves."""
    n = len(v)
    index, coord = [], []
    for k in range(cell - half + 1, cell + half + 1):
        if 0 <= k < n:
            index.append(k)
            coord.append(v[k])
        elif circle:
            index.append(k % n)
            coord.append(v[k % n] + 360.0 * (k // n))
        elif rule == 'undef':
            return None
        else:
            # Distance beyond the end, in nodes.
            beyond = -k if k < 0 else k - (n - 1)
            end, way = (0, -1) if k < 0 else (n - 1, 1)
            edge = abs(v[1] - v[0]) if k < 0 else abs(v[-1] - v[-2])
            if rule == 'expand':
                index.append(end)
                coord.append(v[end] + way * edge * beyond)
            elif rule == 'sym':
                # The mirror image of a node beyond the other end is reflected
                # again.
                mirror = k % (2 * n - 2)
                index.append(mirror if mirror < n else 2 * n - 2 - mirror)
                turns, rest = divmod(beyond, n - 1)
                rest = abs(v[end - way * rest] - v[end]) if turns % 2 == 0 \
                    else abs(v[n - 1 - end + way * rest] - v[n - 1 - end])
                coord.append(v[end] + way * (turns * abs(v[-1] - v[0]) + rest))
            else:
                if beyond > n:
                    return 'far'
                other = (beyond - 1) if k >= 0 else n - beyond
                start = 0 if k >= 0 else n - 1
                index.append(other)
                coord.append(v[end] + way * (edge + abs(v[other] - v[start])))
    return index, coord


def cells(v, c, tol):
    return grids.cells_of(v, c, tol)


def run_window(case):
    dims, unit, method = len(case['axes']), case['unit'], case['method']
    circle = case['frame'] == 'circle'
    axes = []
    for k, v in enumerate(case['axes']):
        if k == 2 and unit:
            axes.append(core.TemporalAxis(np.array(v, 'i8').view(
                f'M8[{unit}]')))
        else:
            axes.append(core.Axis(np.array(v),
                                  is_circle=k == 0 and case['frame'] != 'plain'))
    if circle != axes[0].is_circle:
        return None
    values = [v if k == 2 and unit else axes[k][:].tolist()
              for k, v in enumerate(case['axes'])]
    data = grids.values_of(case['seed'], [len(v) for v in values],
                           case['kind'])
    for hole in case['holes']:
        data[tuple(hole)] = np.nan
    grid = [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D][dims - 2](
        *axes, data)
    data = data.astype('f8')
    points = []
    for pos in case['points']:
        point = []
        for k, (v, at) in enumerate(zip(values, pos)):
            if k == 2 and unit:
                point.append(grids.place_int(v, *at))
            elif k == 0 and circle and at[0] >= len(v) - 1:
                end = v[0] + 360.0
                at = (len(v) - 1, at[1])
                point.append(v[-1] + at[1] * (end - v[-1]))
            else:
                point.append(gen.place(v, *at))
        points.append(point)
    coords = [np.array(c, 'i8' if k == 2 and unit else 'f8')
              for k, c in enumerate(zip(*points))]
    if unit:
        coords[2] = coords[2].view(f'M8[{unit}]')
    if case['frame'] != 'plain':
        coords[0] = coords[0] + 360.0 * case['turn']
    # A turn may push the ends of a part of a circle outside.
    result = pyinterp.bicubic(grid, *coords, nx=case['nx'], ny=case['ny'],
                              fitting_model=method, boundary=case['boundary'],
                              num_threads=case['threads'])
    where = {k: v for k, v in case.items() if k not in ('points', 'axes')}
    where['axes'] = values
    labels = set()
    # Names of the axes on which the window of a point leaves the grid, None
    # when it is undecided.
    leaving = []
    for point, got in zip(points, result.tolist()):
        options = []
        for k, (v, c) in enumerate(zip(values, point)):
            exact = k == 2 and unit
            step = min(abs(b - a) for a, b in zip(v, v[1:]))
            tol = 0 if exact else 1e-9 * step + 1e-13 * max(map(abs, v))
            if case['frame'] != 'plain' and k == 0:
                tol += 1e-9
            found = cells(v, c, tol)
            if k == 0 and circle:
                if c >= v[-1] - tol:
                    found.append(len(v) - 1)
                if abs(c - v[0]) <= tol or abs(c - v[0] - 360) <= tol:
                    found += [0, len(v) - 1]
            if k < 2:
                found = [window(v, i, case['nx' if k == 0 else 'ny'],
                                case['boundary'], circle and k == 0)
                         for i in found]
            options.append(found)
        names = {'xy'[k] for k in (0, 1) if None in options[k]}
        unsure = any(None in o and any(w is not None for w in o)
                     for o in options[:2])
        if case['frame'] == 'part' and any(
                abs(point[0] - v) < 1e-6 for v in (values[0][0],
                                                   values[0][-1])):
            unsure = True
        if any(len(o) == 0 for o in options[2:]):
            unsure = True
        leaving.append(None if unsure else names)
        allowed, skip, undefined = [], False, False
        for choice in itertools.product(*options):
            wx, wy = choice[:2]
            if wx == 'far' or wy == 'far':
                skip = True
                break
            if wx is None or wy is None:
                undefined = True
                continue
            block = data[np.ix_(wx[0], wy[0])]
            block = block[(slice(None), slice(None)) +
                          tuple(slice(i, i + 2) for i in choice[2:])]
            if np.isnan(block).any():
                undefined = True
                continue
            x = point[0]
            if circle:
                middle = (wx[1][case['nx'] - 1] + wx[1][case['nx']]) / 2
                x -= 360.0 * round((x - middle) / 360.0)
            try:
                layers = np.empty(block.shape[2:])
                for at in np.ndindex(*block.shape[2:]):
                    layers[at] = models.fit2d(
                        method, wx[1], wy[1],
                        block[(slice(None), slice(None)) + at], x, point[1])
            except models.Ambiguous:
                skip = True
                break
            for k, i in enumerate(choice[2:], 2):
                a, b = values[k][i], values[k][i + 1]
                t = float(point[k] - a) / float(b - a)
                layers = layers[0] * (1 - t) + layers[1] * t
            allowed.append(float(layers))
        if skip:
            continue
        spread = float(np.nanmax(np.abs(data))) + 1
        if np.isnan(got):
            edge = case['frame'] == 'part' and case['turn'] and (
                abs(point[0] - values[0][0]) < 1e-6 or
                abs(point[0] - values[0][-1]) < 1e-6)
            require(undefined or edge, f'{where}: undefined at {point}, '
                    f'expected {allowed}')
            labels.add('undefined')
            continue
        require(allowed, f'{where}: {got} at {point} although the window '
                'leaves the grid or holds an undefined value')
        error = min(abs(got - e) for e in allowed)
        # Extrapolated steps and high orders amplify rounding errors.
        scale = max([spread] + [abs(e) for e in allowed])
        require(error <= 1e-6 * scale, f'{where}: {got} at {point} instead of '
                f'{allowed}')
        node = [c in v for c, v in zip(point, values)]
        if all(node):
            stored = data[tuple(v.index(c) for c, v in zip(point, values))]
            require(abs(got - stored) <= 1e-6 * scale,
                    f'{where}: {got} at the node {point}, stored {stored}')
        elif not any(node):
            labels.add(f'{method} {case["boundary"]}'
                       f'{" " + case["frame"] if case["frame"] != "plain" else ""}')
    try:
        strict = pyinterp.bicubic(
            grid, *coords, nx=case['nx'], ny=case['ny'], fitting_model=method,
            boundary=case['boundary'], bounds_error=True,
            num_threads=case['threads'])
    except ValueError as err:
        named = {n for n in 'xyzu' if f' {n} axis' in str(err)}
        require(None in leaving or any(leaving),
                f'{where}: error {err} although every window fits, {points}')
        require(None in leaving or any(named & n for n in leaving),
                f'{where}: error {err} does not name the axis, {leaving}')
        if None not in leaving:
            labels.add('error')
    else:
        require(not any(leaving), f'{where}: no error at {points}, windows '
                f'leave the grid along {leaving}')
        require(np.array_equal(strict, result, equal_nan=True),
                f'{where}: {strict} with errors enabled, {result} without')
    if case['frame'] != 'plain' and case['turn'] and labels:
        labels.add('turn')
    return sorted(labels) if labels - {'undefined', 'turn', 'error'} else None


# -- arguments --------------------------------------------------------------
@st.composite
def argument_case(draw):
    return {'dims': draw(st.integers(2, 4)), 'date': draw(st.booleans()),
            'reversed': draw(st.lists(st.integers(0, 3), max_size=2,
                                      unique=True)),
            'circle': draw(st.booleans()),
            'method': draw(st.sampled_from(MODELS + ['', 'cubic', 'Linear',
                                                     'spline'])),
            'boundary': draw(st.sampled_from(
                ['expand', 'wrap', 'sym', 'undef', 'undef', '', 'mirror',
                 'Undef'])),
            'given': draw(st.integers(2, 4)),
            'short': draw(st.sampled_from([None, None, None, 0, 1, 2, 3])),
            'shape': draw(st.sampled_from([[3], [3], [2, 2], []])),
            'type': draw(st.sampled_from(['f8', 'f4'])),
            'seed': draw(st.integers(0, 1000))}


def run_argument(case):
    dims = case['dims']
    size = (12, 11, 4, 5)[:dims]
    rng = np.random.default_rng(case['seed'])
    data = rng.normal(size=size).astype(case['type'])
    values = [np.arange(12) * (30.0 if case['circle'] else 10.0),
              np.arange(11) * 5.0 - 25, np.arange(4.0), np.arange(5.0)][:dims]
    date = case['date'] and dims > 2
    axes, points = [], []
    for i, v in enumerate(values):
        at = rng.uniform(v[4] if i < 2 else v[0], v[6] if i < 2 else v[-1], 3)
        if i == 2 and date:
            v = (v * 1000).astype('M8[s]')
            at = (at * 1000).astype('i8').astype('M8[s]')
        if i in case['reversed']:
            v = np.ascontiguousarray(v[::-1])
        axes.append(pyinterp.TemporalAxis(v) if i == 2 and date else
                    pyinterp.Axis(v, is_circle=case['circle'] and i == 0))
        points.append(at)
    grid = getattr(pyinterp, f'Grid{dims}D')(*axes, data)
    given = min(case['given'], dims)
    points = points[:given]
    # Points of several dimensions, or of different sizes, are refused.
    valid = given == dims
    if case['shape'] != [3]:
        points = [np.resize(p, case['shape']) for p in points]
        valid = False
    elif case['short'] is not None and case['short'] < given:
        points[case['short']] = points[case['short']][:2]
        valid = False
    if {0, 1} & set(case['reversed']) or case['method'] not in MODELS or \
            case['boundary'] not in ('expand', 'wrap', 'sym', 'undef'):
        valid = False
    where = f'{case}'
    extra = dict(zip('zu', points[2:]))
    try:
        got = pyinterp.bicubic(grid, points[0], points[1], nx=3, ny=3,
                               fitting_model=case['method'],
                               boundary=case['boundary'], **extra)
    except (ValueError, TypeError) as err:
        require(not valid, f'{where}: refused, {err}')
        if {0, 1} & set(case['reversed']) and given == dims:
            return 'decreasing'
        return 'refused'
    require(valid, f'{where}: accepted, {got}')
    require(got.shape == (3,) and np.isfinite(got).all(), f'{where}: {got}')
    return 'accepted'


FACETS = [
    Facet('window2d', window_case(2), run_window, 1200, 4, 'Two dimensions.'),
    Facet('window3d', window_case(3), run_window, 800, 2, 'Three dimensions.'),
    Facet('window4d', window_case(4), run_window, 500, 2, 'Four dimensions.'),
    Facet('arguments', argument_case(), run_argument, 600, 1,
          'Axes, names and shapes that are refused.'),
    defaults.facet('W01'),
    large.facet('W01'),
]
