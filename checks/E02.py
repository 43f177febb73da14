"""E02: distances are those of the geodesic on the spheroid."""
import numpy as np
from hypothesis import strategies as st

import pyinterp.core.geodetic as core
from pyinterp import geodetic
from vf import defaults, geodesy, large
from vf.engine import Facet, require

PARTS = ['geodetic']
RULE = """Batches of up to 40 pairs of points (poles, date line, equator, same
point, same meridian or parallel, separations from a centimetre to 18000 km,
any turn of longitude) on the sphere and spheroids flattened up to 1/50, by the
three strategies, element by element, vectorised with one or several threads,
and along lines; azimuths. Large inputs and
structures of up to tens of thousands of items. Non-trivial: two different points on a flattened
spheroid. The oracle is the geodesic computed by quadrature."""
ASSUMPTIONS = [
    'Accuracy of the strategies, as a fraction of the length: 1.5 f2 for '
    'Andoyer, 0.1 f3 for Thomas (f3 along meridians, 10 f3 beyond 1.5 axes), '
    '0.08 f4 for Vincenty; '
    'plus 5 cm at one metre, decreasing with the distance, for the first two '
    'and 10 micrometres for the third.',
    'Nearly antipodal points (further than 2.8 semi-major axes) are not compared.',
]
STRATEGIES = ('andoyer', 'thomas', 'vincenty')

coordinate = st.tuples(
    st.one_of(st.sampled_from([0.0, 180.0, -180.0, 90.0, 179.999, -179.999]),
              st.floats(-180, 360)),
    st.one_of(st.sampled_from([0.0, 90.0, -90.0, 89.9999, 45.0]),
              st.floats(-90, 90))).map(list)
spheroids = st.sampled_from([
    None, None, [6378137.0, 0.0], [6378136.3, 1 / 298.257],
    [3396190.0, 1 / 169.89], [6378137.0, 1 / 50]])


@st.composite
def pairs(draw):
    rows = []
    for _ in range(draw(st.integers(1, 40))):
        x, y = draw(coordinate)
        kind = draw(st.integers(0, 3))
        if kind == 0:
            u, v = draw(coordinate)
        else:
            size = draw(st.sampled_from([0.0, 1e-7, 1e-4, 0.01, 1.0, 10.0,
                                         60.0]))
            u = x + size * draw(st.integers(-4, 4)) / 4
            v = y + size * draw(st.integers(-4, 4)) / 4
            v = min(max(v, -90.0), 90.0)
            if kind == 3:
                u += 360.0 * draw(st.integers(-1, 1))
        rows.append([x, y, u, v])
    return {'rows': rows, 'spheroid': draw(spheroids),
            'shift': draw(st.sampled_from([10.0, 120.0, -200.0, 360.0, 97.5])),
            'threads': draw(st.sampled_from([1, 1, 0, 2]))}


def accuracy(strategy, d, a, f, meridian=False):
    rounding = np.minimum(0.25, 0.06 / np.maximum(d, 1e-9)) + 1e-5
    if strategy == 'andoyer':
        return 1.5 * f**2 * d * np.where(d < 2.3 * a, 1, 2) + rounding, rounding
    if strategy == 'thomas':
        return f**3 * d * np.where(d < 1.5 * a, np.where(
            meridian, 1.0, 0.1), 10) + rounding, rounding
    rounding = np.full(np.shape(d), 1.5e-5)
    return 0.08 * f**4 * d + rounding, rounding


def make(case):
    spheroid = case['spheroid']
    a, f = spheroid or (geodesy.A, geodesy.F)
    return a, f, core.Spheroid(a, f) if spheroid else None


def run_pairs(case):
    a, f, wgs = make(case)
    x, y, u, v = np.array(case['rows']).T.copy()
    where = f'{case}'
    g = geodesy.Geodesic(x, y, u, v, a, f)
    d, threads = g.length, case['threads']
    keep = g.valid & (d < 2.8 * a)
    meridian = np.abs(np.sin(np.radians(u - x))) < 1e-9
    meridian |= np.maximum(np.abs(y), np.abs(v)) > 90 - 1e-9
    labels = set()
    for strategy in STRATEGIES:
        options = {'strategy': strategy, 'wgs': wgs, 'num_threads': threads}
        got = geodetic.coordinate_distances(x, y, u, v, **options)
        tol, rounding = accuracy(strategy, d, a, f, meridian)
        require(got.shape == x.shape, f'{where}: shape {got.shape}')
        require((got[keep] >= 0).all(), f'{where}: {strategy} {got}')
        bad = keep & ~(np.abs(got - d) <= tol)
        require(not bad.any(), f'{where}: {strategy} {got[bad]} instead of '
                f'{d[bad]} for {np.array(case["rows"])[bad].tolist()}')
        same = (x == u) & (y == v)
        require((got[same] == 0).all(),
                f'{where}: {strategy} distance of equal points {got[same]}')
        apart = keep & (d > (1e-4 if strategy == 'vincenty' else 0.5))
        require((got[apart] > 0).all(),
                f'{where}: {strategy} null distance of {d[apart]}')
        # Noise of the series, in both directions or rotated.
        noise = np.where(meridian, 2 * tol, 2 * rounding + 1e-12 * d)
        for text, other in (
            ('reversed', geodetic.coordinate_distances(u, v, x, y, **options)),
            ('rotated', geodetic.coordinate_distances(
                x + case['shift'], y, u + case['shift'], v, **options))):
            bad = keep & ~(np.abs(got - other) <= noise)
            require(not bad.any(), f'{where}: {strategy} {got[bad]}, '
                    f'{text} {other[bad]}')
        one = [geodetic.Point(p, q).distance(
            geodetic.Point(r, s), strategy=strategy, wgs=wgs)
            for p, q, r, s in case['rows']]
        require(one == got.tolist(), f'{where}: {strategy} {got.tolist()}, by '
                f'points {one}')
        if wgs is None and strategy == 'thomas':
            require(one == [geodetic.Point(p, q).distance(
                geodetic.Point(r, s)) for p, q, r, s in case['rows']],
                    f'{where}: default strategy')
            require(np.array_equal(got, geodetic.coordinate_distances(
                x, y, u, v)), f'{where}: default strategy')
    # Azimuths, by the default strategy.
    clear = keep & (d > 1e4) & (np.abs(y) < 89) & (np.abs(v) < 89)
    for i in np.flatnonzero(clear):
        azimuth = geodetic.Point(x[i], y[i]).azimuth(
            geodetic.Point(u[i], v[i]), wgs=wgs)
        expected = float(np.degrees(g.azimuth[i]))
        turn = abs((azimuth - expected + 180) % 360 - 180)
        require(turn <= 100 * (2 * f**2 + 1e-7) * (
            1 if d[i] < 1.5 * a else 10), f'{where}: azimuth {azimuth} of '
                f'{case["rows"][i]} instead of {expected}')
        labels.add('azimuth')
    if f and (keep & (d > 1)).any():
        labels.add('distance')
    return sorted(labels) or None


@st.composite
def lines(draw):
    return {'points': draw(st.lists(coordinate, max_size=30)),
            'spheroid': draw(spheroids)}


def run_lines(case):
    a, f, wgs = make(case)
    where = f'{case}'
    points = [geodetic.Point(*p) for p in case['points']]
    x, y = (np.array([p[i] for p in case['points']], 'f8') for i in (0, 1))
    first = geodetic.LineString(points)
    second = geodetic.LineString(x, y)
    third = geodetic.LineString()
    for p in points:
        third.append(p)
    for strategy in STRATEGIES + (None, ):
        options = {'wgs': wgs}
        if strategy:
            options['strategy'] = strategy
        got = first.curvilinear_distance(**options)
        require(got.shape == x.shape, f'{where}: shape {got.shape}')
        for line in (second, third):
            require(np.array_equal(line.curvilinear_distance(**options), got),
                    f'{where}: lines built in different ways')
        if len(x) == 0:
            continue
        require(got[0] == 0, f'{where}: starts at {got[0]}')
        step = geodetic.coordinate_distances(x[:-1], y[:-1], x[1:], y[1:],
                                             **options)
        total = np.concatenate([[0], np.cumsum(step)])
        require(np.allclose(got, total, rtol=1e-13, atol=1e-9),
                f'{where}: {strategy} {got}, sum of distances {total}')
    exact = geodesy.Geodesic(x[:-1], y[:-1], x[1:], y[1:], a, f)
    if len(x) > 1 and (exact.valid & (exact.length < 2.8 * a)).all():
        got = first.curvilinear_distance(strategy='vincenty', wgs=wgs)
        tol = accuracy('vincenty', exact.length, a, f)[0].sum()
        require(abs(got[-1] - exact.length.sum()) <= tol,
                f'{where}: length {got[-1]} instead of {exact.length.sum()}')
        return 'compared'
    return 'summed' if len(x) > 1 else None


@st.composite
def refused(draw):
    sizes = draw(st.lists(st.integers(0, 3), min_size=4, max_size=4))
    return {'sizes': sizes, 'strategy': draw(st.sampled_from(
        ['andoyer', 'thomas', 'vincenty', 'Thomas', '', 'haversine']))}


def run_refused(case):
    args = [np.zeros(n) for n in case['sizes']]
    valid = len(set(case['sizes'])) == 1
    named = case['strategy'] in STRATEGIES
    for valid_call, call in (
        (valid and named, lambda: geodetic.coordinate_distances(
            *args, strategy=case['strategy'])),
        (named, lambda: geodetic.Point(1, 2).distance(
            geodetic.Point(3, 4), strategy=case['strategy'])),
        (case['sizes'][0] == case['sizes'][1], lambda: geodetic.LineString(
            args[0], args[1])),
        (named, lambda: geodetic.LineString(
            np.arange(3.0), np.arange(3.0)).curvilinear_distance(
                strategy=case['strategy'])),
        (case['sizes'][2] == case['sizes'][3], lambda: geodetic.LineString(
            np.arange(3.0), np.arange(3.0)).closest_point(*args[2:])),
    ):
        try:
            call()
        except ValueError:
            require(not valid_call, f'{case}: refused')
        else:
            require(valid_call, f'{case}: accepted')
    return 'valid' if valid and named else 'invalid'


FACETS = [
    Facet('pairs', pairs(), run_pairs, 1500, 3, 'Pairs of points.'),
    Facet('lines', lines(), run_lines, 1000, 1, 'Lengths along lines.'),
    Facet('refused', refused(), run_refused, 200, 1, 'Wrong arguments.'),
    defaults.facet('E02'),
    large.facet('E02'),
]
