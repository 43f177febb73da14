"""Documented default values: leaving an option out is giving its default.

`OPERATIONS[property]` lists functions of a random generator returning
(call, options) where options maps each name to (default, another value).  A
case leaves some options out; the result must be the one with every option
given.  It is non-trivial when another value of one of these options changes
the result (or is refused), i.e. when the default matters.
"""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .engine import Facet, require


def same(a, b) -> bool:
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fmM')
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def result(call, options):
    try:
        return call(**options)
    except (ValueError, TypeError, IndexError, RuntimeError) as err:
        return f'{type(err).__name__}'


def _array(items):
    return np.array(items)


# -- scattered data ---------------------------------------------------------
def _tree(rng, columns=3, **options):
    import pyinterp
    tree = pyinterp.RTree(ecef=True, **options)
    tree.packing(rng.normal(size=(50, columns)) * 100,
                 rng.normal(size=50))
    return tree, rng.normal(size=(12, columns)) * 130


COMMON = {'radius': (None, 60.0), 'k': (9, 8), 'within': (True, False)}


def rtree_query(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.query(at, **o), {
        'k': (4, 5), 'within': (True, False)}


def rtree_value(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.value(at, **o), {
        'radius': (None, 40.0), 'k': (4, 5), 'within': (True, False)}


def rtree_idw(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.inverse_distance_weighting(at, **o), {
        **COMMON, 'p': (2, 3)}


def rtree_rbf(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.radial_basis_function(at, **o), {
        **COMMON, 'rbf': ('multiquadric', 'inverse_multiquadric'),
        'epsilon': (None, 3.0), 'smooth': (0, 1)}


def rtree_window(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.window_function(at, **o), {
        **COMMON, 'wf': ('blackman', 'nuttall'), 'arg': (None, 5)}


def rtree_lanczos(rng):
    tree, at = _tree(rng)
    return lambda **o: tree.window_function(at, wf='lanczos', **o), {
        'arg': (1, 3), 'k': (9, 8)}


def rtree_kriging(rng):
    import pyinterp
    tree = pyinterp.RTree(ecef=True)
    tree.packing(rng.normal(size=(50, 3)) * 1e6, rng.normal(size=50))
    at = rng.normal(size=(12, 3)) * 1.3e6
    return lambda **o: tree.universal_kriging(at, **o), {
        'radius': (None, 6e5), 'k': (9, 8), 'within': (True, False),
        'covariance': ('matern_32', 'matern_52'),
        'alpha': (1_000_000.0, 500_000.0)}


def rtree_built(rng):
    import pyinterp
    lon, lat = rng.uniform(-180, 180, 50), rng.uniform(-80, 80, 50)
    z = rng.normal(size=50)
    at = np.stack([rng.uniform(-180, 180, 9), rng.uniform(-80, 80, 9)], 1)

    def call(**o):
        tree = pyinterp.RTree(**o)
        tree.packing(np.stack([lon, lat], 1).astype(tree.dtype),
                     z.astype(tree.dtype))
        return tree.query(at.astype(tree.dtype), k=3, within=False)

    return call, {'system': (pyinterp.geodetic.Spheroid(),
                             pyinterp.geodetic.Spheroid((6370e3, 0.0))),
                  'dtype': (np.dtype('f8'), np.dtype('f4')),
                  'ecef': (False, True)}


def _geo_tree(rng, **options):
    import pyinterp
    tree = pyinterp.geodetic.RTree(**options)
    tree.packing(rng.uniform(10, 14, 60), rng.uniform(40, 43, 60),
                 rng.normal(size=60))
    return tree, (rng.uniform(9.5, 14.5, 12), rng.uniform(39.5, 43.5, 12))


def geo_query(rng):
    tree, at = _geo_tree(rng)
    return lambda **o: tree.query(*at, **o), {
        'k': (4, 5), 'within': (False, True)}


def geo_idw(rng):
    tree, at = _geo_tree(rng)
    return lambda **o: tree.inverse_distance_weighting(*at, **o), {
        **COMMON, 'radius': (None, 4e4), 'p': (2, 3)}


def geo_rbf(rng):
    tree, at = _geo_tree(rng)
    return lambda **o: tree.radial_basis_function(*at, **o), {
        **COMMON, 'radius': (None, 4e4),
        'rbf': ('multiquadric', 'inverse_multiquadric'),
        'epsilon': (None, 3e4), 'smooth': (0, 1)}


def geo_window(rng):
    tree, at = _geo_tree(rng)
    return lambda **o: tree.window_function(*at, 1e5, **o), {
        'k': (9, 8), 'within': (True, False), 'wf': ('blackman', 'nuttall'),
        'arg': (None, 5)}


def geo_built(rng):
    import pyinterp
    seed = int(rng.integers(1 << 30))

    def call(**o):
        tree, at = _geo_tree(np.random.default_rng(seed), **o)
        return tree.query(*at, k=3)

    return call, {'spheroid': (pyinterp.geodetic.Spheroid(),
                               pyinterp.geodetic.Spheroid((6370e3, 0.0)))}


# -- grids ------------------------------------------------------------------
def _grid(rng, dims, size=(14, 12, 4, 5)):
    import pyinterp
    size = size[:dims]
    axes = [pyinterp.Axis(np.arange(n) * 1.0) for n in size]
    data = rng.normal(size=size)
    grid = getattr(pyinterp, f'Grid{dims}D')(*axes, data)
    at = [rng.uniform(0.05 * n, 0.75 * n, 30) for n in size]
    return grid, at


def grid_bicubic(rng):
    import pyinterp
    dims = int(rng.integers(2, 5))
    grid, at = _grid(rng, dims)
    extra = dict(zip('zu', at[2:]))
    return lambda **o: pyinterp.bicubic(grid, at[0], at[1], **extra, **o), {
        'nx': (3, 2), 'ny': (3, 2), 'fitting_model': ('bicubic', 'linear'),
        'boundary': ('undef', 'sym'), 'bounds_error': (False, True)}


def grid_2d(rng):
    import pyinterp
    grid, at = _grid(rng, 2)
    at[0][0] = -3
    return lambda **o: pyinterp.bivariate(grid, *at, **o), {
        'interpolator': ('bilinear', 'nearest'),
        'bounds_error': (False, True)}


def grid_2d_idw(rng):
    import pyinterp
    grid, at = _grid(rng, 2)
    return lambda **o: pyinterp.bivariate(
        grid, *at, interpolator='inverse_distance_weighting', **o), {
            'p': (2, 3)}


def grid_3d(rng):
    import pyinterp
    grid, at = _grid(rng, 3)
    at[1][0] = -3
    return lambda **o: pyinterp.trivariate(grid, *at, **o), {
        'interpolator': ('bilinear', 'nearest'),
        'z_method': ('linear', 'nearest'), 'bounds_error': (False, True)}


def grid_4d(rng):
    import pyinterp
    grid, at = _grid(rng, 4)
    at[3][0] = -3
    return lambda **o: pyinterp.quadrivariate(grid, *at, **o), {
        'interpolator': ('bilinear', 'nearest'),
        'z_method': ('linear', 'nearest'), 'u_method': ('linear', 'nearest'),
        'bounds_error': (False, True)}


def grid_axis(rng):
    import pyinterp
    data = rng.normal(size=(12, 12))
    y = pyinterp.Axis(np.arange(12.0))
    at = rng.uniform(0, 700, 20), rng.uniform(0, 11, 20)

    def call(**o):
        grid = pyinterp.Grid2D(pyinterp.Axis(np.arange(12) * 30.0, **o), y,
                               data)
        return pyinterp.bivariate(grid, *at)

    return call, {'is_circle': (False, True)}


def series(rng):
    import pyinterp
    x = pyinterp.Axis(np.arange(15.0))
    y = rng.normal(size=15)
    at = rng.uniform(0, 14, 20)
    if rng.integers(2):
        at[0] = 20
    return lambda **o: pyinterp.interpolate1d(x, y, at, **o), {
        'half_window_size': (3, 2), 'bounds_error': (True, False),
        'kind': ('c_spline', 'linear')}


def axis_find(rng):
    import pyinterp
    axis = pyinterp.Axis(np.arange(10.0))
    at = rng.uniform(-5, 15, 20)
    return lambda **o: axis.find_index(at, **o), {'bounded': (False, True)}


def axis_built(rng):
    import pyinterp
    values = np.arange(12) * 30.0
    values[5] += 1e-4
    at = rng.uniform(-500, 500, 20)

    def call(**o):
        axis = pyinterp.Axis(values, **o)
        return [axis.is_circle, axis.is_regular(), axis.find_index(at)]

    return call, {'is_circle': (False, True), 'epsilon': (1e-6, 1e-2)}


def axis_flip(rng):
    import pyinterp
    date = bool(rng.integers(2))

    def call(**o):
        axis = pyinterp.TemporalAxis(np.arange(5).astype('M8[s]')) if date \
            else pyinterp.Axis(np.arange(5.0))
        other = axis.flip(**o)
        return [axis.is_ascending(), other.is_ascending()]

    return call, {'inplace': (False, True)}


# -- filling ----------------------------------------------------------------
def _holes(rng, dims=2):
    import pyinterp
    size = (16, 12, 3)[:dims]
    data = rng.normal(size=size)
    data[rng.random(size) < 0.4] = np.nan
    circle = bool(rng.integers(2))
    axes = [pyinterp.Axis(np.arange(n) * (22.5 if i == 0 and circle else 1.0),
                          is_circle=circle and i == 0)
            for i, n in enumerate(size)]
    return getattr(pyinterp, f'Grid{dims}D')(*axes, data)


def fill_loess(rng):
    import pyinterp.fill
    mesh = _holes(rng, int(rng.integers(2, 4)))
    return lambda **o: pyinterp.fill.loess(mesh, **o), {
        'nx': (3, 2), 'ny': (3, 2), 'value_type': ('undefined', 'all')}


def fill_relax(rng):
    import pyinterp.fill
    mesh = _holes(rng, int(rng.integers(2, 4)))
    nx, ny = len(mesh.x), len(mesh.y)
    n = nx * ny * np.sqrt(2 / (nx**2 + ny**2))
    return lambda **o: pyinterp.fill.gauss_seidel(mesh, **o), {
        'first_guess': ('zonal_average', 'zero'),
        'max_iteration': (nx * ny, 2), 'epsilon': (1e-4, 1e-2),
        'relaxation': (2 / (1 + np.pi / n), 1.0)}


def fill_line(rng):
    import pyinterp.fill
    kind = ('f8', 'f4')[rng.integers(2)]
    data = rng.integers(0, 9, 20).astype(kind)
    data[rng.random(20) < 0.4] = np.nan
    data[rng.random(20) < 0.2] = 99

    def call(**o):
        given = data.copy()
        return [pyinterp.fill.vector(given, **o), given]

    return call, {'fill_value': (np.nan, 99), 'in_place': (True, False)}


def fill_table(rng):
    import pyinterp.fill
    kind = ('f8', 'f4')[rng.integers(2)]
    data = rng.integers(0, 9, (8, 9)).astype(kind)
    data[rng.random((8, 9)) < 0.4] = np.nan
    data[rng.random((8, 9)) < 0.2] = 99

    def call(**o):
        given = data.copy()
        return [pyinterp.fill.matrix(given, **o), given]

    return call, {'fill_value': (np.nan, 99), 'in_place': (True, False)}


# -- statistics -------------------------------------------------------------
def statistics(rng):
    import pyinterp
    values = rng.normal(size=(4, 5))

    def call(**o):
        stats = pyinterp.DescriptiveStatistics(values, **o)
        return [stats.mean(), stats.sum_of_weights(), stats.count()]

    return call, {'weights': (None, np.full((4, 5), 2.0)), 'axis': (None, (0,)),
                  'dtype': (np.dtype('f8'), np.dtype('f4'))}


def statistics_var(rng):
    import pyinterp
    stats = pyinterp.DescriptiveStatistics(rng.normal(size=9))
    return lambda **o: [stats.var(**o), stats.std(**o)], {'ddof': (0, 1)}


def stream(rng):
    import pyinterp
    values = rng.normal(size=(3, 150))

    def call(**o):
        stats = pyinterp.StreamingHistogram(values, **o)
        return [stats.mean(), stats.quantile(0.3), stats.bins()['value'],
                stats.bins()['weight']]

    return call, {'weights': (None, np.full((3, 150), 2.0)),
                  'axis': (None, (1,)), 'bin_count': (100, 70),
                  'dtype': (np.dtype('f8'), np.dtype('f4'))}


def stream_quantile(rng):
    import pyinterp
    stats = pyinterp.StreamingHistogram(rng.normal(size=50))
    return lambda **o: stats.quantile(**o), {'q': (0.5, 0.4)}


def binning_push(rng):
    import pyinterp
    x, y, z = rng.uniform(0, 9, 40), rng.uniform(0, 9, 40), rng.normal(size=40)

    def call(**o):
        mesh = pyinterp.Binning2D(pyinterp.Axis(np.arange(10.0)),
                                  pyinterp.Axis(np.arange(10.0)))
        mesh.push(x, y, z, **o)
        return [mesh.variable(), mesh.variable('sum_of_weights')]

    return call, {'simple': (True, False)}


def binning_built(rng):
    import pyinterp
    x, y, z = rng.uniform(0, 9, 40), rng.uniform(0, 9, 40), rng.normal(size=40)

    def call(**o):
        mesh = pyinterp.Binning2D(pyinterp.Axis(np.arange(10.0)),
                                  pyinterp.Axis(np.arange(10.0)), **o)
        mesh.push(x, y, z, False)
        return [mesh.variable(), mesh.variable('sum_of_weights')]

    return call, {'wgs': (None, pyinterp.geodetic.Spheroid()),
                  'dtype': (np.dtype('f8'), np.dtype('f4'))}


def binning_variable(rng):
    import pyinterp
    x = rng.uniform(0, 9, 40)
    if rng.integers(2):
        mesh = pyinterp.Binning2D(pyinterp.Axis(np.arange(10.0)),
                                  pyinterp.Axis(np.arange(10.0)))
        mesh.push(x, x, x)
    else:
        mesh = pyinterp.Binning1D(pyinterp.Axis(np.arange(10.0)))
        mesh.push(x, x)
    return lambda **o: mesh.variable(**o), {'statistics': ('mean', 'sum')}


def binning_line(rng):
    import pyinterp
    x = rng.uniform(0.1, 8.9, 40)
    z = rng.normal(size=40)

    def call(weights, **o):
        mesh = pyinterp.Binning1D(pyinterp.Axis(np.arange(10.0)), **o)
        mesh.push(x, z, weights=weights)
        return [mesh.variable(), mesh.variable('sum_of_weights')]

    def again(**o):
        return call(o.pop('weights', None), **o)

    return again, {'range': (None, (2.0, 5.0)),
                   'weights': (None, np.full(40, 2.0)),
                   'dtype': (np.dtype('f8'), np.dtype('f4'))}


def histogram(rng):
    import pyinterp
    x, z = rng.uniform(0, 1, 300), rng.normal(size=300)

    def call(**o):
        mesh = pyinterp.Histogram2D(pyinterp.Axis(np.arange(2.0)),
                                    pyinterp.Axis(np.arange(2.0)), **o)
        mesh.push(x, x, z)
        return [mesh.variable(), mesh.variable('quantile', 0.3)]

    return call, {'bin_counts': (100, 30),
                  'dtype': (np.dtype('f8'), np.dtype('f4'))}


def histogram_variable(rng):
    import pyinterp
    x = rng.uniform(0, 9, 40)
    mesh = pyinterp.Histogram2D(pyinterp.Axis(np.arange(4.0)),
                                pyinterp.Axis(np.arange(4.0)))
    mesh.push(x, x, x)
    return lambda **o: mesh.variable(**o), {'statistics': ('mean', 'max')}


def histogram_quantile(rng):
    import pyinterp
    x = rng.uniform(0, 9, 40)
    mesh = pyinterp.Histogram2D(pyinterp.Axis(np.arange(4.0)),
                                pyinterp.Axis(np.arange(4.0)))
    mesh.push(x, x, x)
    return lambda q=None: mesh.variable(
        'quantile', *([] if q is None else [q])), {'q': (0.5, 0.4)}


# -- geodesy ----------------------------------------------------------------
def _wgs():
    import pyinterp
    return (pyinterp.geodetic.Spheroid((6378137.0, 1 / 298.257223563)),
            pyinterp.geodetic.Spheroid((6370e3, 0.01)))


def _point(rng):
    import pyinterp
    return pyinterp.geodetic.Point(float(rng.uniform(-170, 170)),
                                   float(rng.uniform(-80, 80)))


def spheroid(rng):
    import pyinterp

    def call(**o):
        item = pyinterp.geodetic.Spheroid(**o)
        return [item.semi_major_axis, item.flattening]

    return call, {'parameters': ((6378137.0, 1 / 298.257223563),
                                 (6370e3, 0.0))}


def coordinates(rng):
    import pyinterp
    at = [rng.uniform(-180, 180, 5), rng.uniform(-90, 90, 5),
          rng.uniform(0, 1e5, 5)]

    def call(**o):
        return pyinterp.geodetic.Coordinates(**o).lla_to_ecef(*at)

    return call, {'spheroid': _wgs()}


def geo_distance(rng):
    a, b = _point(rng), _point(rng)
    return lambda **o: a.distance(b, **o), {
        'strategy': ('thomas', 'andoyer'), 'wgs': _wgs()}


def geo_azimuth(rng):
    a, b = _point(rng), _point(rng)
    return lambda **o: a.azimuth(b, **o), {'wgs': _wgs()}


def geo_distances(rng):
    import pyinterp
    at = [rng.uniform(-80, 80, 6) for _ in range(4)]
    return lambda **o: pyinterp.geodetic.coordinate_distances(*at, **o), {
        'strategy': ('thomas', 'andoyer'), 'wgs': _wgs()}


def _line(rng, n=6):
    import pyinterp
    return pyinterp.geodetic.LineString(np.sort(rng.uniform(-60, 60, n)),
                                        rng.uniform(-60, 60, n))


def line_distance(rng):
    line = _line(rng)
    return lambda **o: line.curvilinear_distance(**o), {
        'strategy': ('thomas', 'andoyer'), 'wgs': _wgs()}


def line_simplify(rng):
    import pyinterp
    line = pyinterp.geodetic.LineString(
        np.linspace(0, 4, 40), rng.uniform(-1e-3, 1e-3, 40))
    return lambda **o: [(p.lon, p.lat) for p in line.simplify(50, **o)], {
        'wgs': (_wgs()[0], pyinterp.geodetic.Spheroid((3370e3, 0.01)))}


def line_closest(rng):
    line, point = _line(rng), _point(rng)

    def call(**o):
        found = line.closest_point(point, **o)
        return [found.lon, found.lat]

    return call, {'wgs': _wgs()}


def point_built(rng):
    import pyinterp

    def call(**o):
        item = pyinterp.geodetic.Point(**o)
        return [item.lon, item.lat]

    return call, {'lon': (0.0, 3.0), 'lat': (0.0, 4.0)}


def shape_area(rng):
    import pyinterp
    g = pyinterp.geodetic
    a, b, c, d = (float(v) for v in rng.uniform(-60, 60, 4))
    box = g.Box(g.Point(min(a, b), min(c, d)), g.Point(max(a, b), max(c, d)))
    shape = [box, box.as_polygon(),
             g.MultiPolygon([box.as_polygon()])][rng.integers(3)]
    return lambda **o: shape.area(**o), {'wgs': _wgs()}


def shape_perimeter(rng):
    import pyinterp
    g = pyinterp.geodetic
    a, b, c, d = (float(v) for v in rng.uniform(-60, 60, 4))
    box = g.Box(g.Point(min(a, b), min(c, d)), g.Point(max(a, b), max(c, d)))
    shape = box.as_polygon()
    return lambda **o: shape.perimeter(**o), {'wgs': _wgs()}


def longitudes(rng):
    import pyinterp
    lon = rng.uniform(-700, 700, 9)
    return lambda **o: pyinterp.geodetic.normalize_longitudes(
        lon.copy(), **o), {'min_lon': (-180.0, 0.0)}


def crossing(rng):
    import pyinterp
    lat = np.linspace(-30, 30, 41)
    lon = np.linspace(0, 12, 41)
    shift = float(rng.uniform(-3, 3))
    name = ('calculate_crossover', 'calculate_crossover_list')[rng.integers(2)]

    def call(**o):
        found = getattr(pyinterp.core.geodetic, name)(
            lon, lat, lon[::-1] + shift, lat, **o)
        if isinstance(found, list):
            found = found[0] if found else None
        return found and [found[0].lon, found[0].lat, *found[1]]

    return call, {'predicate': (None, 1.0), 'cartesian_plane': (True, False)}


# -- geohash ----------------------------------------------------------------
def hash_encode(rng):
    import pyinterp
    at = rng.uniform(-180, 180, 5), rng.uniform(-90, 90, 5)
    return lambda **o: pyinterp.geohash.encode(*at, **o), {
        'precision': (12, 11)}


def hash_decode(rng):
    import pyinterp
    codes = pyinterp.geohash.encode(
        rng.uniform(-180, 180, 5), rng.uniform(-90, 90, 5),
        int(rng.integers(2, 9)))
    return lambda **o: pyinterp.geohash.decode(codes, **o), {
        'round': (False, True)}


def hash_boxes(rng):
    import pyinterp
    g = pyinterp.geodetic
    return lambda **o: pyinterp.geohash.bounding_boxes(**o), {
        'box': (g.Box.whole_earth(), g.Box(g.Point(0, 0), g.Point(9, 9))),
        'precision': (1, 2)}


def hash_area(rng):
    import pyinterp
    codes = pyinterp.geohash.encode(
        rng.uniform(-180, 180, 5), rng.uniform(-90, 90, 5),
        int(rng.integers(2, 6)))
    return lambda **o: pyinterp.geohash.area(codes, **o), {'wgs': _wgs()}


def hash_grid(rng):
    import pyinterp
    g = pyinterp.geodetic

    def call(**o):
        found = pyinterp.GeoHash.grid(**o)
        return [np.asarray(found['geohash'].values),
                np.asarray(found['lon'].values)]

    return call, {
        'box': (g.Box.whole_earth(), g.Box(g.Point(0, 0), g.Point(9, 9))),
        'precision': (1, 2)}


# -- periods ----------------------------------------------------------------
def period(rng):
    from pyinterp.period import Period
    a = np.datetime64('2020-01-01', 's') + int(rng.integers(0, 100))
    b = a + int(rng.integers(1, 100))

    def call(**o):
        item = Period(a, b, **o)
        return [item.begin, item.last, item.end()]

    return call, {'within': (True, False)}


def periods(rng):
    from pyinterp.period import PeriodList
    seed = int(rng.integers(1 << 30))

    def call(**o):
        steps = np.random.default_rng(seed).integers(1, 9, 6)
        ends = np.cumsum(steps)
        array = np.array([ends - steps, ends]).astype('M8[s]')
        array[0, 3:] += np.timedelta64(1, 's')
        first = PeriodList(array)
        second = first.join_adjacent_periods(**o)
        return [first.periods, second.periods]

    return call, {'inplace': (False, True),
                  'epsilon': (np.timedelta64(0, 's'), np.timedelta64(1, 's'))}


# -- orbits -----------------------------------------------------------------
def _ephemeris(rng, turns=1.2):
    """Positions every half second over a few revolutions of 300 seconds."""
    u = np.arange(int(turns * 600)) / 600 * 2 * np.pi + rng.uniform(3, 6)
    tilt = np.radians(rng.uniform(50, 130))
    lat = np.degrees(np.arcsin(np.sin(tilt) * np.sin(u)))
    lon = np.degrees(np.arctan2(np.cos(tilt) * np.sin(u), np.cos(u)) -
                     u * 0.07)
    lon = (lon + rng.uniform(-180, 180) + 180) % 360 - 180
    return lon, lat, (np.arange(len(u)) * 500).astype('m8[ms]')


def positions(rng):
    import pyinterp
    import pyinterp.orbit as orbit
    lon, lat, time = _ephemeris(rng, 0.2)
    step = 11
    lon, lat, time = lon[::step], lat[::step], time[::step].astype('f8')
    at = rng.uniform(time[0], time[-1], 9)
    wgs = _wgs()
    return lambda **o: orbit.interpolate(lon, lat, time, at, **o), {
        'height': (0.0, 1e6), 'half_window_size': (10, 2),
        'wgs': tuple(pyinterp.geodetic.Coordinates(w) for w in wgs)}


def ephemeris(rng):
    import pyinterp
    lon, lat, time = _ephemeris(rng)
    # The default resolution on a small planet, that of the Earth otherwise.
    small = bool(rng.integers(2))
    fixed = {'spheroid': pyinterp.geodetic.Spheroid((500e3, 0.002))} if (
        small) else {'along_track_resolution': 60.0}

    def call(**o):
        item = pyinterp.calculate_orbit(8e5, lon, lat, time, **fixed, **o)
        return [item.longitude, item.latitude, item.time, item.x_al,
                item.pass_time, item.passes_per_cycle()]

    return call, ({'along_track_resolution': (2, 5)} if small else
                  {'spheroid': _wgs()})


def iteration(rng):
    import pyinterp
    lon, lat, time = _ephemeris(rng)
    item = pyinterp.calculate_orbit(
        8e5, lon, lat, time, np.timedelta64(300, 's'), 100.0)
    start = np.datetime64('2020-01-01', 'ns') + int(rng.integers(1000))
    return lambda **o: list(item.iterate(start, **o)), {
        'last_date': (start + item.cycle_duration(),
                      start + np.timedelta64(100, 's')),
        'absolute_pass_number': (1, 2)}


OPERATIONS = {
    'A01': [axis_find, axis_built], 'A03': [axis_flip],
    'E01': [spheroid, coordinates],
    'E02': [geo_distance, geo_azimuth, geo_distances, line_distance,
            line_simplify, line_closest, point_built],
    'E03': [shape_area, shape_perimeter], 'E04': [crossing],
    'E06': [longitudes],
    'F01': [fill_loess], 'F02': [fill_relax], 'F03': [fill_line, fill_table],
    'G01': [grid_2d, grid_2d_idw, grid_3d, grid_4d, grid_axis],
    'H01': [hash_encode, hash_decode],
    'H02': [hash_boxes, hash_area, hash_grid],
    'O01': [positions, ephemeris, iteration],
    'R01': [rtree_query, rtree_value, rtree_built],
    'R02': [rtree_idw, rtree_rbf, rtree_window, rtree_lanczos],
    'R03': [rtree_kriging],
    'R04': [geo_query, geo_idw, geo_rbf, geo_window, geo_built],
    'S01': [statistics, statistics_var],
    'S03': [stream, stream_quantile],
    'S04': [binning_push, binning_built, binning_variable, binning_line],
    'S05': [histogram, histogram_variable, histogram_quantile],
    'T03': [period], 'T04': [periods],
    'W01': [grid_bicubic], 'W02': [series],
}


def facet(name: str, quick: int = 60):
    operations = OPERATIONS[name]

    @st.composite
    def cases(draw):
        return {'op': draw(st.integers(0, len(operations) - 1)),
                'omit': draw(st.lists(st.integers(0, 7), min_size=1,
                                      max_size=8, unique=True)),
                'seed': draw(st.integers(0, 2**20))}

    def run(case):
        operation = operations[case['op']]
        call, options = operation(np.random.default_rng(case['seed']))
        full = {k: v[0] for k, v in options.items()}
        omitted = [k for i, k in enumerate(full) if i in case['omit']]
        want = result(call, full)
        got = result(call, {k: v for k, v in full.items()
                            if k not in omitted})
        require(same(got, want), f'{operation.__name__} {case}: {got} without '
                f'{omitted}, {want} with the documented defaults {full}')
        labels = [f'{operation.__name__} {k}' for k in omitted
                  if not same(result(call, {**full, k: options[k][1]}), want)]
        return labels or None

    return Facet('defaults', cases(), run, quick * min(len(operations), 3), 1,
                 'Options left out take their documented default.')
