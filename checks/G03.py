"""G03: interpolated fields are continuous across the date line."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import gen, grids
from vf.engine import Facet, require

PARTS = ['bivariate', 'trivariate', 'quadrivariate', 'bicubic']
RULE = """Fields of two to four dimensions on a full circle of longitudes,
evenly spaced or not, starting anywhere, and points anywhere on the circle, given
on any turn. The circle is cut at another place, shifted by full turns,
reversed, and unrolled as a plain axis with copies of its first and last columns;
a part of a circle is queried on another turn. Non-trivial: a point between the
last and the first longitude, or between the longitudes where the circle is cut
again. Every method; the oracle is the equality of the results."""
ASSUMPTIONS = [
    'Irregular axes are cut where the gap at the seam does not exceed the mean '
    'step (see A02); windows do not exceed the circle.',
    'Points equally distant from two nodes are not compared for "nearest", nor '
    'points on the edge of two cells for "inverse_distance_weighting".',
    'Decreasing axes are refused by the bicubic and spline methods.',
]
CELLS = ['bilinear', 'nearest', 'inverse_distance_weighting']
FITS = ['bicubic', 'linear', 'polynomial', 'c_spline', 'akima', 'steffen']
FUNCTIONS = [pyinterp.bivariate, pyinterp.trivariate, pyinterp.quadrivariate]
GRIDS = [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D]


@st.composite
def circle_case(draw, dims):
    method = draw(st.sampled_from(CELLS + FITS))
    fit = method in FITS
    half = {'linear': 1, 'akima': 3}.get(method, 2) if fit else 1
    least = max(2 * half, 3)
    x = draw(gen.circle_values(10 if dims == 2 else 8, min_size=least,
                               descending=False))
    y = draw(grids.real_axis(6, -88, 88)) if not fit else draw(
        gen.axis_values(least, 7, descending=False, origin=st.just(-30.0),
                        scale=st.sampled_from([0.5, 1.0])))['v']
    axes = [x['v'], y]
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(4))
            unit, v = time['unit'], time['v']
            axes.append(v)
        else:
            axes.append(draw(grids.real_axis(4)))
    if dims > 3:
        axes.append(draw(grids.real_axis(4)))
    n = len(axes[0])
    points = draw(st.lists(st.tuples(
        st.tuples(st.one_of(st.just(n - 1), st.integers(0, n - 1)),
                  gen.fraction.map(lambda f: int(f * 2**16) / 2**16)),
        st.integers(-2, 2),
        *[gen.inside(len(v)) for v in axes[1:]]), min_size=1, max_size=6))
    return {'axes': axes, 'unit': unit, 'method': method, 'points': points,
            'cut': draw(st.integers(1, n - 1)),
            'turn': draw(st.integers(-2, 2)),
            'nx': draw(st.integers(half, max(half, min(n // 2, 4)))),
            'ny': draw(st.integers(half, max(half, min(len(y) // 2, 4)))),
            'seed': draw(st.integers(0, 999)),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'p': draw(st.integers(1, 4)),
            'threads': draw(st.sampled_from([1, 1, 2]))}


def evaluate(case, x_axis, others, data, coords):
    dims = data.ndim
    grid = GRIDS[dims - 2](x_axis, *others, data)
    if case['method'] in FITS:
        return pyinterp.bicubic(grid, *coords, nx=case['nx'], ny=case['ny'],
                                fitting_model=case['method'],
                                num_threads=case['threads'])
    options = {'p': case['p']} if case['method'].startswith('inv') else {}
    return FUNCTIONS[dims - 2](grid, *coords, interpolator=case['method'],
                               num_threads=case['threads'], **options)


def run_circle(case):
    x = np.array(case['axes'][0])
    n, unit, method = len(x), case['unit'], case['method']
    fit = method in FITS
    axis = core.Axis(x, is_circle=True)
    if not axis.is_circle:
        return None
    others = []
    coords = []
    period = np.append(x, x[0] + 360.0)
    base = [float(period[c] + f * (period[c + 1] - period[c]))
            for (c, f), *_ in case['points']]
    turns = [p[1] for p in case['points']]
    coords = [np.array(base) + 360.0 * np.array(turns)]
    for k, v in enumerate(case['axes'][1:], 1):
        if k == 2 and unit:
            others.append(core.TemporalAxis(np.array(v, 'i8').view(
                f'M8[{unit}]')))
            coords.append(np.array([
                grids.place_int(v, *p[k + 1]) for p in case['points']
            ], 'i8').view(f'M8[{unit}]'))
        else:
            others.append(core.Axis(np.array(v)))
            coords.append(np.array([
                gen.place(v, *p[k + 1]) for p in case['points']]))
    data = grids.values_of(case['seed'], [len(v) for v in case['axes']],
                           case['kind'])
    full = evaluate(case, axis, others, data, coords)
    # Points as far from two nodes.
    sure = np.ones(len(base), bool)
    if method == 'nearest':
        y = case['axes'][1]
        for k, ((c, f), _, (j, g), *_) in enumerate(case['points']):
            sure[k] = len(grids.surface_weights(
                base[k], float(coords[1][k]), period[c:c + 2].tolist(),
                y[j:j + 2], 'nearest', 2)) == 1
    if method.startswith('inv'):
        # On the edge of two cells, each one gives its own value.
        for k, ((c, f), _, (j, g), *_) in enumerate(case['points']):
            sure[k] = 1e-9 < f < 1 - 1e-9
    spread = float(np.abs(data).max()) + 1
    # High orders amplify rounding errors.
    tol = spread * (1e-6 if fit else 1e-8)

    where = {k: v for k, v in case.items() if k != 'points'}

    def same(result, text, select=slice(None)):
        for k in np.arange(len(base))[select]:
            if not sure[k]:
                continue
            a, b = full[k], result[k]
            require(abs(a - b) <= tol or (np.isnan(a) and np.isnan(b)),
                    f'{where}: point {[c[k] for c in coords]}: {a}, '
                    f'{text} {b}')

    # The window of the fits must hold along y, never along x.
    if not fit:
        require(not np.isnan(full).any(),
                f'{where}: undefined on the circle: {full} '
                f'{[c.tolist() for c in coords]}')
    # Points of another turn.
    same(evaluate(case, axis, others, data, [np.array(base)] + coords[1:]),
         'without full turns')
    # The whole circle on another turn.
    moved = core.Axis(x + 360.0 * case['turn'], is_circle=True)
    same(evaluate(case, moved, others, data, coords),
         f'axis shifted by {case["turn"]} turns')
    # Another cut.
    cut = case['cut']
    labels = set()
    rolled = core.Axis(np.concatenate([x[cut:], x[:cut] + 360.0]),
                       is_circle=True)
    if rolled.is_circle:
        shifted = np.concatenate([data[cut:], data[:cut]])
        same(evaluate(case, rolled, others, shifted, coords),
             f'cut before column {cut}')
        wrapped = np.concatenate([x[cut:], x[:cut]]) % 360.0
        labels.add('cut')
    # Reversed.
    if not fit:
        mirror = core.Axis(x[::-1].copy(), is_circle=True)
        same(evaluate(case, mirror, others, data[::-1].copy(), coords),
             'reversed')
        same(evaluate(case, axis.flip(), others, data[::-1], coords),
             'flipped')
    # Unrolled.
    pad = case['nx'] if fit else 1
    index = np.arange(-pad, n + pad)
    plain = core.Axis(np.concatenate([x[n - pad:] - 360.0, x,
                                      x[:pad] + 360.0]), is_circle=False)
    same(evaluate(case, plain, others, data[index % n].copy(),
                  [np.array(base)] + coords[1:]), 'unrolled')
    seam = {c for (c, f), *_ in case['points'] if f > 0}
    for c in seam:
        if c == n - 1:
            labels.add(f'{method} seam')
        elif c == cut - 1:
            labels.add(f'{method} new seam')
    labels.discard('cut')
    return sorted(labels) or None


@st.composite
def part_case(draw):
    """A part of a circle."""
    v = draw(gen.axis_values(4, 8, origin=st.integers(-540, 540).map(
        lambda k: k / 2), scale=st.sampled_from([0.5, 1.0, 2.0])))['v']
    return {'x': v, 'y': draw(grids.real_axis(6, -88, 88)),
            'points': draw(st.lists(st.tuples(
                gen.inside(len(v)), st.integers(-3, 3), st.integers(0, 4096)),
                min_size=1, max_size=6)),
            'method': draw(st.sampled_from(CELLS[:1] + CELLS[2:])),
            'wrap': draw(st.sampled_from([None, -180.0, 0.0])),
            'seed': draw(st.integers(0, 999))}


def run_part(case):
    v = np.array(case['x'])
    given = v if case['wrap'] is None else case['wrap'] + np.mod(
        v - case['wrap'], 360)
    x_axis = core.Axis(given, is_circle=True)
    if x_axis.is_circle or abs(v[-1] - v[0]) > 300:
        return None
    y = np.array(case['y'])
    data = grids.values_of(case['seed'], (len(v), len(y)))
    # Away from the ends: rounding may put the point outside.
    points = []
    for (c, f), turn, g in case['points']:
        if (c == 0 and f < 1e-6) or (c == len(v) - 2 and f > 1 - 1e-6):
            f = 0.5
        points.append((gen.place(case['x'], c, f), turn,
                       float(y.min() + (y.max() - y.min()) * g / 4096)))
    xs = np.array([p[0] for p in points])
    turns = np.array([p[1] for p in points])
    ys = np.array([p[2] for p in points])
    plain = pyinterp.Grid2D(core.Axis(v), core.Axis(y), data)
    wrapped = pyinterp.Grid2D(x_axis, core.Axis(y), data)
    expected = pyinterp.bivariate(plain, xs, ys,
                                  interpolator=case['method'], num_threads=1)
    result = pyinterp.bivariate(wrapped, xs + 360.0 * turns, ys,
                                interpolator=case['method'], num_threads=1)
    for k, (a, b) in enumerate(zip(expected, result)):
        require(abs(a - b) < 1e-6, f'{given.tolist()} longitude '
                f'{xs[k] + 360.0 * turns[k]}: {b}, on its turn {a}')
    return case['method'] if np.any(turns) else None


FACETS = [
    Facet('circle2d', circle_case(2), run_circle, 1200, 3, 'Two dimensions.'),
    Facet('circle3d', circle_case(3), run_circle, 1000, 2,
          'Three dimensions.'),
    Facet('circle4d', circle_case(4), run_circle, 700, 2, 'Four dimensions.'),
    Facet('part', part_case(), run_part, 1500, 1, 'Part of a circle.'),
]
