"""W02: one-dimensional interpolation fits its window."""
import numpy as np
from hypothesis import strategies as st

import pyinterp.core as core
from vf import defaults, gen, large, models, templates
from vf.engine import Facet, require

PARTS = ['interpolate1d', 'axis']
RULE = """Increasing series of 2 to 14 nodes, evenly spaced or not, smooth,
rough, flat or integer values, every fitting model, half windows of 1 to 20
nodes, points at nodes, anywhere and outside, in any order. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a
defined value strictly between two nodes. The oracle fits the model, written
from its definition, to the nodes around the nearest one; each point is also
requested alone. Curves, their derivatives and surfaces of the C++ library are
also driven through a small module of /verif/native, several times on one
object."""
ASSUMPTIONS = [
    'Series are increasing, as documented.',
    'A point at the same distance of two nodes may use the window of either.',
    'Akima fits are not compared where the definition is discontinuous.',
]
MODELS = ['linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'akima',
          'akima_periodic', 'steffen']


@st.composite
def series_case(draw):
    kind = draw(st.sampled_from(MODELS))
    x = draw(gen.axis_values(2, 14, descending=False))['v']
    n = len(x)
    half = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 20]))
    how = draw(st.sampled_from(['smooth', 'rough', 'integer', 'flat']))
    points = [[c, int(f * 2**16) / 2**16] for c, f in draw(st.lists(
        gen.inside(n), min_size=1, max_size=6))]
    outside = draw(st.lists(st.tuples(
        st.sampled_from([0, 1]),
        st.sampled_from([1e-3, 0.2, 1.0, 1e6])), max_size=2))
    return {'x': x, 'kind': kind, 'half': half, 'points': points,
            'outside': [list(o) for o in outside], 'how': how,
            'seed': draw(st.integers(0, 999)),
            'place': draw(st.integers(0, 6))}


def values(case, n):
    rng = np.random.default_rng(case['seed'])
    if case['how'] == 'smooth':
        return np.sin(np.arange(n) * rng.uniform(0.1, 1.0) + rng.uniform(0, 6))
    if case['how'] == 'rough':
        return rng.normal(size=n) * 10.0**rng.integers(-3, 4)
    result = rng.integers(-3, 4, size=n).astype('f8')
    if case['how'] == 'flat':
        result[n // 3:] = result[n // 3]
    return result


def run_series(case):
    axis = core.Axis(np.array(case['x']))
    x = axis[:].tolist()
    n, kind, half = len(x), case['kind'], case['half']
    y = values(case, n)
    if kind.endswith('periodic'):
        y[-1] = y[0]
    inside = [gen.place(x, *p) for p in case['points']]
    span = x[-1] - x[0]
    outside = [x[0] - f * span if side == 0 else x[-1] + f * span
               for side, f in case['outside']]
    points = list(inside)
    for k, p in enumerate(outside):
        points.insert((case['place'] + k) % (len(points) + 1), p)
    where = f"{kind} half={half} x={x} y={y.tolist()}"

    def windows(p):
        """Windows around the nearest nodes."""
        gaps = [abs(p - v) for v in x]
        least = min(gaps) + 1e-9 * min(b - a for a, b in zip(x, x[1:])) + \
            1e-13 * max(map(abs, x))
        return sorted({(max(k - half, 0), min(k + half, n - 1) + 1)
                       for k, g in enumerate(gaps) if g <= least})

    short = [p for p in inside if all(
        b - a < models.LEAST[kind] for a, b in windows(p))]
    maybe = [p for p in inside if any(
        b - a < models.LEAST[kind] for a, b in windows(p))]
    order = np.array(points)
    try:
        result = core.interpolate1d(axis, y, order, half_window_size=half,
                                    bounds_error=False, kind=kind)
    except ValueError as err:
        require('at least' in str(err), f'{where}: {err}')
        require(maybe, f'{where}: {err} although the windows of {points} hold '
                'enough nodes')
        return 'refused' if short else None
    require(not short, f'{where}: no error at {short} although the window '
            'holds too few nodes')
    require(result.shape == (len(points), ), f'{where}: shape {result.shape}')
    require(np.array_equal(order, points), f'{where}: points modified')
    labels = set()
    tolerance = 1e-12 * max(map(abs, x))
    for p, got in zip(points, result.tolist()):
        alone = core.interpolate1d(axis, y, np.array([p]), half,
                                   bounds_error=False, kind=kind)[0]
        require(alone == got or (np.isnan(alone) and np.isnan(got)),
                f'{where}: {got} at {p} with the other points {points}, '
                f'{alone} alone')
        if p < x[0] - 2 * tolerance or p > x[-1] + 2 * tolerance:
            require(np.isnan(got), f'{where}: {got} at {p}, outside')
            labels.add('outside')
            continue
        if p < x[0] or p > x[-1]:
            continue
        try:
            expected = [models.fit(kind, x[a:b], y[a:b], p)
                        for a, b in windows(p)]
        except models.Ambiguous:
            continue
        scale = max([float(np.abs(y).max())] + [abs(e) for e in expected])
        require(min(abs(got - e) for e in expected) <= 1e-7 * scale,
                f'{where}: {got} at {p}, expected {expected}')
        if p in x:
            stored = y[x.index(p)]
            require(abs(got - stored) <= 1e-9 * scale,
                    f'{where}: {got} at the node {p}, stored {stored}')
        else:
            labels.add(f'{kind} {case["how"]}')
    try:
        strict = core.interpolate1d(axis, y, order, half, bounds_error=True,
                                    kind=kind)
    except IndexError:
        require(any(p < x[0] or p > x[-1] for p in points),
                f'{where}: range error at {points}')
        labels.add('error')
    else:
        require('outside' not in labels, f'{where}: no error at {points}')
        require(np.array_equal(strict, result, equal_nan=True),
                f'{where}: {strict} and {result}')
    # A field multiplied by a power of two, plus a constant.
    if kind in ('linear', 'c_spline', 'polynomial', 'steffen', 'akima'):
        other = core.interpolate1d(axis, 4 * y, order, half,
                                   bounds_error=False, kind=kind)
        require(np.allclose(other, 4 * result, rtol=1e-12,
                            atol=1e-12 * np.abs(y).max() + 1e-300,
                            equal_nan=True),
                f'{where}: {other} is not four times {result}')
    return sorted(labels) if labels - {'outside', 'error'} else None


@st.composite
def line_case(draw):
    x = draw(gen.axis_values(5, 12, descending=False))['v']
    return {'x': x, 'kind': draw(st.sampled_from(
        ['linear', 'polynomial', 'c_spline', 'akima', 'steffen'])),
        'slope': draw(st.sampled_from([0, 1, -2, 0.5])),
        'start': draw(st.integers(-5, 5)),
        'points': [[c, int(f * 2**16) / 2**16] for c, f in draw(st.lists(
            gen.inside(len(x)), min_size=1, max_size=5))]}


def run_line(case):
    """Every model reproduces a line."""
    axis = core.Axis(np.array(case['x']))
    x = axis[:]
    y = case['slope'] * (x - x[0]) / (x[-1] - x[0]) + case['start']
    points = [gen.place(x.tolist(), *p) for p in case['points']]
    got = core.interpolate1d(axis, y, np.array(points), len(x), True,
                             case['kind'])
    expected = np.interp(points, x, y)
    require(np.allclose(got, expected, rtol=0, atol=1e-7),
            f'{case}: {got} on a line, expected {expected}')
    return None if set(points) <= set(x) else case['kind']


@st.composite
def history_case(draw):
    """Successive uses of one object of the C++ library."""
    kind = draw(st.sampled_from(MODELS + ['bilinear', 'bicubic']))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        x = draw(gen.axis_values(1, 9, descending=False))['v']
        y = draw(gen.axis_values(1, 6, descending=False))['v']
        steps.append({
            'x': x, 'y': y, 'how': draw(st.sampled_from(
                ['smooth', 'rough', 'integer', 'flat'])),
            'seed': draw(st.integers(0, 999)),
            'at': [[draw(st.integers(0, 9)), draw(st.integers(0, 9)),
                    draw(st.sampled_from([0, 0, 0.5, 0.25, 0.9, 1 / 3])),
                    draw(st.sampled_from([0, 0.5, 0.125, 0.7]))]
                   for _ in range(draw(st.integers(1, 4)))],
            'outside': draw(st.sampled_from([None, None, -1, 1])),
            'bad': draw(st.integers(0, 9)) == 0})
    return {'kind': kind, 'steps': steps}


def slope(kind, x, y, p):
    """Derivative of a fit, by differences exact for its degree."""
    i = min(max(int(np.searchsorted(x, p)) - 1, 0), len(x) - 2)
    a, b = x[i], x[i + 1]
    if kind == 'polynomial':
        a, b, degree = x[0], x[-1], len(x) - 1
    else:
        degree = 3
    t = (1 - np.cos(np.pi * np.arange(degree + 1) / max(degree, 1))) / 2
    # Nodes belong to two cells: never leave this one.
    v = [models.fit(kind, x, y, min(max(a + (b - a) * k, a), b)) for k in t]
    fitted = np.polynomial.Polynomial.fit(t, v, degree, domain=[0, 1])
    return float(fitted.deriv()((p - a) / (b - a))) / (b - a)


def run_history(case):
    """Curves and surfaces of the C++ library, used again and again."""
    library = templates.load()
    if library is None:
        return None
    kind = case['kind']
    surface = kind in ('bilinear', 'bicubic')
    item = (library.Surface if surface else library.Curve)(kind)
    # The splines of a surface need more points than it tells.
    least = 2 if kind == 'bilinear' else models.LEAST[kind]
    require(surface or item.least() == least,
            f'{kind}: {item.least()} points at least')
    labels = set()
    for number, step in enumerate(case['steps']):
        where = f'step {number} of {case}'
        x, y = np.array(step['x']), np.array(step['y'])
        small = len(x) < least or surface and len(y) < least
        if surface:
            z = np.array([values({**step, 'seed': step['seed'] + k}, len(y))
                          for k in range(len(x))]).reshape(len(x), len(y))
            data = (x, y, z)
        else:
            z = values(step, len(x))
            if kind.endswith('periodic'):
                z[-1] = z[0]
            data = (x, z)
        if step['bad']:
            data = (*data[:-1], data[-1][:-1])
        if small or step['bad']:
            at = (x[:1], y[:1]) if surface else (x[:1], )
            for name in ('values', 'derivatives')[:1 if surface else 2]:
                try:
                    getattr(item, name)(*data, *at)
                except ValueError:
                    continue
                require(False, f'{where}: {name} with too few points or '
                        'shapes that differ')
            continue
        if surface:
            at = [[gen.place(x.tolist(), i % (len(x) - 1), f),
                   gen.place(y.tolist(), j % (len(y) - 1), g)]
                  for i, j, f, g in step['at']]
        else:
            at = [[gen.place(x.tolist(), i % (len(x) - 1), f)]
                  for i, _, f, _ in step['at']]
        if step['outside']:
            span = x[-1] - x[0]
            at.append([x[0] - span / 9 if step['outside'] < 0 else
                       x[-1] + span / 9] + at[0][1:])
        columns = np.array(at).T
        got = item.values(*data, *columns)
        alone = [item.value(*data, *p) for p in at]
        require(np.array_equal(got, alone, equal_nan=True),
                f'{where}: {got} together, {alone} one by one')
        rates = None
        if not surface:
            rates = item.derivatives(*data, *columns)
            alone = [item.derivative(*data, *p) for p in at]
            require(np.array_equal(rates, alone, equal_nan=True),
                    f'{where}: derivatives {rates} together, {alone} one by '
                    'one')
        for k, p in enumerate(at):
            if not x[0] <= p[0] <= x[-1] or (
                    surface and not y[0] <= p[1] <= y[-1]):
                require(np.isnan(got[k]) and (
                    rates is None or np.isnan(rates[k])),
                        f'{where}: {got[k]} at {p}, outside')
                continue
            try:
                if surface:
                    wanted = models.fit2d(
                        'linear' if kind == 'bilinear' else 'bicubic', x, y,
                        z, *p)
                else:
                    wanted = models.fit(kind, x, z, *p)
                    rate = slope(kind, x, z, *p)
            except models.Ambiguous:
                continue
            scale = max(float(np.abs(z).max()), abs(wanted))
            require(abs(got[k] - wanted) <= 1e-7 * scale,
                    f'{where}: {got[k]} at {p}, expected {wanted}')
            if not surface:
                size = scale / np.diff(x).min()
                require(abs(rates[k] - rate) <= 1e-6 * max(size, abs(rate)),
                        f'{where}: derivative {rates[k]} at {p}, expected '
                        f'{rate}')
            labels.add(kind if number == 0 else f'{kind} used again')
    return sorted(labels) or None


FACETS = [
    Facet('series', series_case(), run_series, 3000, 4,
          'Models fitted to their windows.'),
    Facet('line', line_case(), run_line, 800, 2, 'Lines are reproduced.'),
    Facet('library', history_case(), run_history, 1500, 2,
          'Curves, their derivatives and surfaces of the C++ library.'),
    defaults.facet('W02'),
    large.facet('W02'),
]
