"""G04: results do not depend on threads, batching, storage or direction."""
import pickle
import threading

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
import pyinterp.fill
import pyinterp.geodetic
import pyinterp.geohash
from pyinterp.core import geodetic
from vf import gen, grids, large, templates
from vf.engine import Facet, require

PARTS = ['bivariate', 'trivariate', 'quadrivariate', 'bicubic', 'fill',
         'rtree', 'geodetic', 'geohash_string', 'geohash_int64',
         'geohash_class', 'interpolate1d']
RULE = """Every vectorised computation on 0 to 80 points: grids (every method,
two to four dimensions), indexes of scattered data, geodetic functions, filling.
The result with one thread is compared bit for bit with 0 to 40 threads, with
the points permuted, split into several calls or requested one by one, given in
Fortran order, strided or reversed, with pickled objects, and with calls made
concurrently by several Python threads; grids whose axes have been flipped agree
up to rounding. Arguments are compared before and after. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least
two points with a defined result."""
ASSUMPTIONS = [
    'Points equally distant from two nodes are not compared between an axis '
    'and its reverse.',
]
GRIDS = [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D]
CELLS = ['bilinear', 'nearest', 'inverse_distance_weighting']
FITS = ['bicubic', 'linear', 'polynomial', 'c_spline', 'akima', 'steffen']
LAYOUTS = ['c', 'fortran', 'strided', 'reversed', 'offset', 'swapped']


def layout(array, how):
    """The same array, stored otherwise."""
    array = np.array(array)
    if how == 'fortran':
        return np.asfortranarray(array)
    if how == 'strided':
        big = np.zeros([2 * n for n in array.shape], array.dtype)
        view = big[tuple(slice(None, None, 2) for _ in array.shape)]
        view[...] = array
        return view
    if how == 'reversed' and 1 not in array.shape:
        flip = tuple(slice(None, None, -1) for _ in array.shape)
        return array[flip].copy()[flip]
    if how == 'offset':
        big = np.zeros([n + 3 for n in array.shape], array.dtype)
        view = big[tuple(slice(1, n + 1) for n in array.shape)]
        view[...] = array
        return view
    if how == 'swapped' and array.ndim > 1:
        return np.ascontiguousarray(np.swapaxes(array, 0, 1)).swapaxes(0, 1)
    return array


def same(a, b):
    """Equality of the results, bit for bit."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            return False
    return True


def joined(parts):
    return tuple(np.concatenate([np.asarray(p[k]) for p in parts])
                 for k in range(len(parts[0])))


plan = st.fixed_dictionaries({
    'threads': st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 16, 33]),
                        min_size=2, max_size=3, unique=True),
    'cuts': st.lists(st.integers(0, 80), max_size=3),
    'shuffle': st.integers(0, 2**16),
    'layout': st.sampled_from(LAYOUTS),
    'concurrent': st.sampled_from([0, 0, 0, 2, 4]),
})

size = st.one_of(st.integers(0, 12), st.sampled_from(
    [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 80]))


def compare(call, points, case, where, extra=()):
    """Results of a call for every plan.

    call(points, threads) takes a tuple of arrays of the same length and
    returns a tuple of arrays of that length.
    """
    how = case['plan']
    count = len(points[0])
    kept = [p.copy() for p in points] + [e.copy() for e in extra]
    base = call(points, 1)
    for k, r in enumerate(base):
        require(len(r) == count, f'{where}: {len(r)} results, {count} points')
    for n in how['threads']:
        got = call(points, n)
        require(same(got, base), f'{where}: {got} with {n} threads, '
                f'{base} with one')
    if count:
        cuts = sorted({min(c, count) for c in how['cuts']} | {0, count})
        if len(cuts) > 2:
            got = joined([call(tuple(p[a:b] for p in points), 1)
                          for a, b in zip(cuts, cuts[1:])])
            require(same(got, base), f'{where}: {got} by parts {cuts}, '
                    f'{base} at once')
        order = np.random.default_rng(how['shuffle']).permutation(count)
        got = call(tuple(p[order] for p in points), how['threads'][0])
        require(same(got, tuple(r[order] for r in base)),
                f'{where}: {got} in the order {order.tolist()}, '
                f'{[r[order] for r in base]} expected')
        one = int(order[0])
        got = call(tuple(p[one:one + 1] for p in points), 1)
        require(same(got, tuple(r[one:one + 1] for r in base)),
                f'{where}: {got} at point {one} alone, '
                f'{[r[one] for r in base]} with the others')
        stored = tuple(layout(p, how['layout']) for p in points)
        got = call(stored, how['threads'][-1])
        require(same(got, base), f'{where}: {got} with points stored as '
                f'{how["layout"]}, {base} otherwise')
    if how['concurrent']:
        results, errors = [], []

        def target():
            try:
                results.append(call(points, how['threads'][0]))
            except Exception as err:  # pylint: disable=broad-except
                errors.append(err)

        workers = [threading.Thread(target=target)
                   for _ in range(how['concurrent'])]
        for w in workers:
            w.start()
        for w in workers:
            w.join()
        require(not errors, f'{where}: concurrent calls raised {errors}')
        for got in results:
            require(same(got, base), f'{where}: {got} in concurrent calls, '
                    f'{base} otherwise')
    for a, b in zip(kept, list(points) + list(extra)):
        require(same([a], [b]), f'{where}: argument modified')
    again = call(points, 1)
    require(same(again, base), f'{where}: {again} the second time')
    return base


def defined(base, least=2):
    return sum(1 for v in np.asarray(base[0])
               if v.dtype.kind != 'f' or not np.isnan(v).all()) >= least


# -- grids ------------------------------------------------------------------
@st.composite
def grid_case(draw):
    dims = draw(st.integers(2, 4))
    method = draw(st.sampled_from(CELLS + FITS))
    fit = method in FITS
    half = 3 if fit else 1
    n = {2: 9, 3: 6, 4: 4}[dims]
    circle = draw(st.booleans())
    if fit:
        x = draw(gen.circle_values(9, min_size=6, descending=False))['v'] \
            if circle else draw(gen.axis_values(6, 9, descending=False))['v']
        y = draw(gen.axis_values(6, 9, descending=False))['v']
    else:
        x = draw(gen.circle_values(9))['v'] if circle else draw(
            grids.real_axis(n, -180, 180))
        y = draw(grids.real_axis(n, -90, 90))
    axes = [x, y]
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(n))
            unit = time['unit']
            axes.append(time['v'])
        else:
            axes.append(draw(grids.real_axis(n)))
    if dims > 3:
        axes.append(draw(grids.real_axis(n)))
    count = draw(size)
    return {'axes': axes, 'circle': circle, 'unit': unit, 'method': method,
            'half': half, 'count': count, 'seed': draw(st.integers(0, 2**16)),
            'kind': draw(st.sampled_from(['f8', 'f4', 'i2', 'i8'])),
            'holes': draw(st.sampled_from([0, 0, 0.1])),
            'stored': draw(st.sampled_from(LAYOUTS)),
            'outside': draw(st.sampled_from([0, 0.2])),
            # Coordinates repeated from one point to the next.
            'held': draw(st.sampled_from([0, 3, 1, 2, 4, 7, 11, 12, 15])),
            'flips': draw(st.integers(0, 2**dims - 1)),
            'pickled': draw(st.booleans()), 'plan': draw(plan)}


def make_grid(case, flips=0):
    axes = []
    for k, v in enumerate(case['axes']):
        if k == 2 and case['unit']:
            a = core.TemporalAxis(
                np.array(v, 'i8').view(f'M8[{case["unit"]}]'))
        else:
            a = core.Axis(np.array(v), is_circle=case['circle'] and k == 0)
        axes.append(a)
    data = grids.values_of(case['seed'], [len(v) for v in case['axes']],
                           case['kind'])
    if case['holes'] and data.dtype.kind == 'f':
        rng = np.random.default_rng(case['seed'] + 1)
        data[rng.random(data.shape) < case['holes']] = np.nan
    for k in range(len(axes)):
        if flips >> k & 1:
            axes[k] = axes[k].flip()
            data = np.flip(data, k)
    return axes, data


def positions(case):
    rng = np.random.default_rng(case['seed'] + 2)
    coords = []
    for k, v in enumerate(case['axes']):
        n = len(v)
        cell = rng.integers(0, n - 1, case['count'])
        frac = rng.choice([0.0, 0.125, 0.25, 0.3, 0.45, 0.7, 0.9],
                          case['count'])
        out = rng.random(case['count']) < case['outside']
        cell = np.where(out, rng.choice([-2, n], case['count']), cell)
        if k == 2 and case['unit']:
            c = []
            for i, f in zip(cell.tolist(), frac.tolist()):
                j = min(max(i, 0), n - 2)
                c.append(grids.place_int(v, j, f + (i - j)))
            coords.append(np.array(c, 'i8').view(f'M8[{case["unit"]}]'))
        else:
            coords.append(np.array([gen.place(v, i, f) for i, f in zip(
                cell.tolist(), frac.tolist())], 'f8'))
    if case['held'] and case['count']:
        at = np.maximum.accumulate(np.where(
            rng.random(case['count']) < 0.4, np.arange(case['count']), 0))
        coords = [c[at] if case['held'] >> k & 1 else c
                  for k, c in enumerate(coords)]
    return tuple(coords)


def run_grid(case):
    dims = len(case['axes'])
    axes, data = make_grid(case)
    data = layout(data, case['stored'])
    untouched = data.copy()
    grid = GRIDS[dims - 2](*axes, data)
    if case['pickled']:
        grid = pickle.loads(pickle.dumps(grid))
    method = case['method']

    def evaluate(target):
        def call(points, threads):
            if method in FITS:
                return (pyinterp.bicubic(
                    target, *points, nx=case['half'], ny=case['half'],
                    fitting_model=method, num_threads=threads), )
            return ([pyinterp.bivariate, pyinterp.trivariate,
                     pyinterp.quadrivariate][dims - 2](
                         target, *points, interpolator=method,
                         num_threads=threads), )
        return call

    where = f'{ {k: v for k, v in case.items() if k != "plan"} }'
    points = positions(case)
    base = compare(evaluate(grid), points, case, where, (data, ))
    require(same([data], [untouched]), f'{where}: data modified')
    # The same data stored in C order.
    plain = GRIDS[dims - 2](*axes, np.ascontiguousarray(data))
    got = evaluate(plain)(points, 1)
    require(same(got, base), f'{where}: {base}, {got} with C-ordered data')
    # Reversed axes.
    if case['flips'] and method not in FITS:
        other, turned = make_grid(case, case['flips'])
        for grid2 in (GRIDS[dims - 2](*other, turned),
                      GRIDS[dims - 2](*other, turned,
                                      increasing_axes='copy')):
            got = evaluate(grid2)(points, 2)[0]
            check_close(case, where, data, points, base[0], got,
                        f'axes reversed ({case["flips"]})')
    elif case['flips']:
        other, turned = make_grid(case, case['flips'])
        grid2 = GRIDS[dims - 2](*other, turned, increasing_axes='copy')
        # Window around the nearest node: ties are excluded by positions.
        got = evaluate(grid2)(points, 2)[0]
        check_close(case, where, data, points, base[0], got,
                    f'axes reversed ({case["flips"]}) then set increasing')
    if not defined(base):
        return None
    return f'{dims}D {method}'


def check_close(case, where, data, points, base, got, what):
    scale = float(np.nanmax(np.abs(data.astype('f8')))) if np.isfinite(
        data.astype('f8')).any() else 1.0
    rough = case['method'] in FITS
    tolerance = (1e-5 if rough else 1e-8) * (scale + 1)
    if case['kind'] in ('f4', 'i2'):
        tolerance = max(tolerance, 1e-5 * (scale + 1))
    for k, (a, b) in enumerate(zip(base.tolist(), got.tolist())):
        if edge(case, [p[k] for p in points]):
            continue
        if np.isnan(a) or np.isnan(b):
            require(np.isnan(a) and np.isnan(b),
                    f'{where}: {a}, {b} with {what} at point {k}')
            continue
        require(abs(a - b) <= tolerance,
                f'{where}: {a}, {b} with {what} at point {k}')


def edge(case, point):
    """True near a node: the enclosing cell may change."""
    for k, (v, c) in enumerate(zip(case['axes'], point)):
        if k == 2 and case['unit']:
            c = int(c.astype('i8'))
            tol = 0
            near = [x for x in v if x == c]
            # Truncated middles.
            ties = [1 for a, b in zip(v, v[1:]) if 2 * c == a + b]
            if near or ties:
                return True
            continue
        lo = min(abs(b - a) for a, b in zip(v, v[1:]))
        tol = 1e-6 * lo
        turns = [c]
        if case['circle'] and k == 0:
            turns = [c - 720, c - 360, c, c + 360, c + 720]
        for t in turns:
            if any(abs(x - t) <= tol for x in v):
                return True
            ends = v + ([v[0] + np.sign(v[1] - v[0]) * 360]
                        if case['circle'] and k == 0 else [])
            if any(abs(2 * t - a - b) <= tol for a, b in zip(ends, ends[1:])):
                return True
    return False


# -- grids whose axes are set increasing in place ---------------------------
@st.composite
def inplace_case(draw):
    dims = draw(st.integers(2, 4))
    axes = [draw(grids.real_axis(5)) for _ in range(dims)]
    return {'axes': axes, 'mode': draw(st.sampled_from(['inplace', 'copy'])),
            'seed': draw(st.integers(0, 999)),
            'stored': draw(st.sampled_from(LAYOUTS)),
            'kind': draw(st.sampled_from(['f8', 'f4', 'i2']))}


def run_inplace(case):
    axes = [core.Axis(np.array(v)) for v in case['axes']]
    values = [a[:].tolist() for a in axes]
    data = layout(grids.values_of(case['seed'], [len(v) for v in values],
                                  case['kind']), case['stored'])
    kept = data.copy()
    grid = GRIDS[data.ndim - 2](*axes, data, increasing_axes=case['mode'])
    flips = [k for k, v in enumerate(values) if v[0] > v[-1]]
    where = f'{case}'
    require(same([grid.array], [np.flip(kept, flips).astype(
        grid.array.dtype)]), f'{where}: array {grid.array}')
    for k, name in enumerate('xyzu'[:data.ndim]):
        got = getattr(grid, name)
        require(got.is_ascending(), f'{where}: {name} not increasing')
        step = max(map(abs, values[k])) * 1e-13
        require(np.allclose(got[:], sorted(values[k]), rtol=0, atol=step),
                f'{where}: {name}: {got[:]}')
    if case['mode'] == 'copy':
        require(same([data], [kept]), f'{where}: data modified')
        for a, v in zip(axes, values):
            require(a[:].tolist() == v, f'{where}: axis modified')
    return case['mode'] if flips else None


# -- scattered data ---------------------------------------------------------
@st.composite
def scattered_case(draw):
    return {'op': draw(st.sampled_from(
        ['query', 'value', 'idw', 'rbf', 'window', 'kriging', 'geo query',
         'geo idw', 'geo rbf', 'geo window'])),
            'samples': draw(st.sampled_from([0, 1, 5, 30, 30, 30, 60])),
            'columns': draw(st.sampled_from([2, 3])),
            'ecef': draw(st.booleans()),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'k': draw(st.sampled_from([1, 3, 5, 9])),
            'radius': draw(st.sampled_from([None, 3e6, 8e5])),
            'within': draw(st.booleans()), 'count': draw(size),
            'spread': draw(st.sampled_from([5.0, 30.0, 80.0])),
            'packing': draw(st.booleans()),
            'enum': draw(st.integers(0, 6)),
            'pickled': draw(st.booleans()),
            'seed': draw(st.integers(0, 2**16)), 'plan': draw(plan)}


RBF = ['Cubic', 'Gaussian', 'InverseMultiquadric', 'Linear', 'Multiquadric',
       'ThinPlate', 'Cubic']
WINDOWS = ['Blackman', 'Boxcar', 'FlatTop', 'Hamming', 'Lanczos', 'Nuttall',
           'Parzen']


def run_scattered(case):
    rng = np.random.default_rng(case['seed'])
    n, m = case['samples'], case['count']
    spread = case['spread']

    def places(count):
        return np.stack([rng.uniform(-spread, spread, count) * 2,
                         rng.uniform(-spread, spread, count),
                         rng.uniform(0, 1000, count)], 1)

    samples, points = places(n), places(m)
    values = rng.normal(size=n)
    op, k, within = case['op'], case['k'], case['within']
    radius = case['radius']
    where = f'{ {a: b for a, b in case.items() if a != "plan"} }'
    if op.startswith('geo'):
        tree = geodetic.RTree()
        lon, lat = samples[:, 0].copy(), samples[:, 1].copy()
        (tree.packing if case['packing'] else tree.insert)(lon, lat, values)
        if case['pickled']:
            tree = pickle.loads(pickle.dumps(tree))
        points = (points[:, 0].copy(), points[:, 1].copy())

        def call(at, threads):
            at = tuple(np.ascontiguousarray(a) for a in at)
            if op == 'geo query':
                return tree.query(*at, k=k, within=within,
                                  num_threads=threads)
            if op == 'geo idw':
                return tree.inverse_distance_weighting(
                    *at, radius=radius, k=k, within=within,
                    num_threads=threads)
            if op == 'geo rbf':
                return tree.radial_basis_function(
                    *at, radius=radius, k=k, within=within,
                    rbf=getattr(core.RadialBasisFunction, RBF[case['enum']]),
                    num_threads=threads)
            return tree.window_function(
                *at, radius=radius or 5e6, k=k, within=within,
                wf=getattr(core.WindowFunction, WINDOWS[case['enum']]),
                num_threads=threads)

        extra = (lon, lat, values)
    else:
        kind = case['kind']
        ecef = case['ecef']
        if ecef:
            samples, points = samples * 1e5, points * 1e5
            samples[:, 2] /= 1e4
            points[:, 2] /= 1e4
        columns = case['columns']
        samples = samples[:, :columns].astype(kind)
        points = (points[:, :columns].astype(kind), )
        values = values.astype(kind)
        tree = pyinterp.RTree(dtype=np.dtype(kind), ecef=ecef)
        (tree.packing if case['packing'] else tree.insert)(samples, values)
        if case['pickled']:
            tree = pickle.loads(pickle.dumps(tree))

        def call(at, threads):
            options = {'k': k, 'within': within, 'num_threads': threads}
            if op == 'query':
                return tree.query(*at, **options)
            options['radius'] = radius
            if op == 'value':
                return tree.value(*at, **options)
            if op == 'idw':
                return tree.inverse_distance_weighting(*at, **options)
            if op == 'rbf':
                return tree.radial_basis_function(
                    *at, rbf=RBF_NAMES[case['enum']], **options)
            if op == 'window':
                options['radius'] = radius or 5e6
                return tree.window_function(
                    *at, wf=WINDOW_NAMES[case['enum']], **options)
            return tree.universal_kriging(
                *at, covariance=COVARIANCE_NAMES[case['enum']], **options)

        extra = (samples, values)
    base = compare(call, points, case, where, extra)
    require(len(tree) == n, f'{where}: {len(tree)} samples')
    return op if defined(base) else None


RBF_NAMES = ['cubic', 'gaussian', 'inverse_multiquadric', 'linear',
             'multiquadric', 'thin_plate', 'cubic']
WINDOW_NAMES = ['blackman', 'boxcar', 'flat_top', 'hamming', 'lanczos',
                'nuttall', 'parzen']
COVARIANCE_NAMES = ['matern_12', 'whittle_matern', 'matern_52', 'cauchy',
                    'gaussian', 'spherical', 'linear']


# -- geodetic functions -----------------------------------------------------
@st.composite
def geodetic_case(draw):
    return {'op': draw(st.sampled_from(
        ['distances', 'to ecef', 'from ecef', 'transform', 'box', 'polygon',
         'multipolygon', 'closest', 'normalize', 'encode', 'encode int',
         'interpolate1d'])),
            'strategy': draw(st.sampled_from(
                ['andoyer', 'thomas', 'vincenty'])),
            'count': draw(size), 'seed': draw(st.integers(0, 2**16)),
            'plan': draw(plan)}


def run_geodetic(case):
    rng = np.random.default_rng(case['seed'])
    m, op = case['count'], case['op']
    lon, lat = rng.uniform(-180, 180, m), rng.uniform(-90, 90, m)
    alt = rng.uniform(-1000, 1e6, m)
    where = f'{ {a: b for a, b in case.items() if a != "plan"} }'
    first = geodetic.Coordinates()
    second = geodetic.Coordinates(geodetic.Spheroid(6378136.3, 1 / 298.257))
    ring = [(float(np.cos(t)) * r, float(np.sin(t)) * r / 2)
            for t, r in zip(np.linspace(0, 6, 8), rng.uniform(20, 90, 8))]
    polygon = geodetic.Polygon(
        [geodetic.Point(*p) for p in ring + ring[:1]])
    line = geodetic.LineString(np.array([p[0] for p in ring]),
                               np.array([p[1] for p in ring]))
    points = (lon, lat)
    if op == 'distances':
        points = (lon, lat, rng.uniform(-180, 180, m),
                  rng.uniform(-90, 90, m))

        def call(at, threads):
            return (pyinterp.geodetic.coordinate_distances(
                *at, strategy=case['strategy'], wgs=None,
                num_threads=threads), )
    elif op in ('to ecef', 'from ecef', 'transform'):
        points = (lon, lat, alt)
        if op == 'from ecef':
            points = first.lla_to_ecef(lon, lat, alt)

        def call(at, threads):
            if op == 'to ecef':
                return first.lla_to_ecef(*at, num_threads=threads)
            if op == 'from ecef':
                return first.ecef_to_lla(*at, num_threads=threads)
            return first.transform(second, *at, num_threads=threads)
    elif op in ('box', 'polygon', 'multipolygon'):
        target = {
            'box': geodetic.Box(geodetic.Point(-60, -45),
                                geodetic.Point(100, 60)),
            'polygon': polygon,
            'multipolygon': geodetic.MultiPolygon([polygon])}[op]

        def call(at, threads):
            return (target.covered_by(*at, num_threads=threads), )
    elif op == 'closest':

        def call(at, threads):
            return line.closest_point(*at, num_threads=threads)
    elif op == 'normalize':
        points = (lon * 5, )

        def call(at, threads):
            return (pyinterp.geodetic.normalize_longitudes(
                np.array(at[0]), -180.0), )
    elif op == 'interpolate1d':
        axis = core.Axis(np.linspace(-180, 180, 21))
        y = rng.normal(size=21)
        points = (lon, )

        def call(at, threads):
            return (core.interpolate1d(axis, y, *at, half_window_size=4,
                                       kind='akima'), )
    else:
        module = (pyinterp.geohash if op == 'encode' else
                  pyinterp.geohash.int64)
        precision = 7 if op == 'encode' else 40

        def call(at, threads):
            codes = module.encode(*at, precision=precision)
            return (codes, *module.decode(codes))
    base = compare(call, points, case, where)
    return op if len(base[0]) > 1 else None


# -- filling ----------------------------------------------------------------
@st.composite
def fill_case(draw):
    return {'op': draw(st.sampled_from(['loess', 'gauss_seidel'])),
            'shape': [draw(st.integers(3, 14)), draw(st.integers(3, 14)),
                      draw(st.integers(1, 3))],
            'dims': draw(st.integers(2, 3)),
            'circle': draw(st.booleans()),
            'holes': draw(st.sampled_from([0.1, 0.4])),
            'window': [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
            'type': draw(st.sampled_from(['undefined', 'defined', 'all'])),
            'guess': draw(st.sampled_from(['zero', 'zonal_average'])),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'seed': draw(st.integers(0, 2**16)),
            'stored': draw(st.sampled_from(LAYOUTS)),
            'threads': draw(st.lists(st.sampled_from([0, 2, 3, 8, 33]),
                                     min_size=1, max_size=3, unique=True))}


def run_fill(case):
    rng = np.random.default_rng(case['seed'])
    shape = case['shape'][:case['dims']]
    shape[-1] += 3 if case['dims'] == 3 else 0
    data = rng.normal(size=shape).astype(case['kind'])
    data[rng.random(shape) < case['holes']] = np.nan
    x = core.Axis(np.linspace(0, 360, shape[0], endpoint=False),
                  is_circle=True) if case['circle'] else core.Axis(
                      np.arange(float(shape[0])))
    axes = [x] + [core.Axis(np.arange(float(n))) for n in shape[1:]]
    stored = layout(data, case['stored'])
    grid = GRIDS[case['dims'] - 2](*axes, stored)
    where = f'{case}'

    def call(threads):
        if case['op'] == 'loess':
            return (pyinterp.fill.loess(
                grid, *case['window'], value_type=case['type'],
                num_threads=threads), )
        # The sweeps are computed at the machine's precision.
        status, result = pyinterp.fill.gauss_seidel(
            grid, first_guess=case['guess'], max_iteration=3000,
            epsilon=1e-9 if case['kind'] == 'f8' else 1e-5,
            num_threads=threads)
        return (result, np.full(len(result), status))

    base = call(1)
    for n in case['threads']:
        got = call(n)
        if case['op'] == 'loess':
            require(same(got, base), f'{where}: {got} with {n} threads, '
                    f'{base} with one')
        else:
            require(np.allclose(got[0], base[0], atol=1e-4 if case[
                'kind'] == 'f4' else 1e-6, equal_nan=True),
                    f'{where}: {got} with {n} threads, {base} with one')
    plain = GRIDS[case['dims'] - 2](*axes, data)
    grid, other = plain, grid
    got = call(1)
    require(same(got, base), f'{where}: {base}, {got} with C-ordered data')
    require(same([stored], [data]), f'{where}: data modified')
    return case['op'] + ' ' + case['stored']


# -- errors -----------------------------------------------------------------
@st.composite
def error_case(draw):
    return {'dims': draw(st.integers(2, 4)),
            'method': draw(st.sampled_from(['bilinear', 'nearest', 'bicubic',
                                            'c_spline'])),
            'count': draw(st.sampled_from([1, 2, 8, 16, 64, 500])),
            'bad': draw(st.sampled_from(['all', 'some', 'last', 'nan'])),
            'axis': draw(st.integers(0, 3)),
            'threads': draw(st.sampled_from([0, 1, 2, 4, 8, 16]))}


def run_error(case):
    dims = case['dims']
    axes = [core.Axis(np.arange(6.0)) for _ in range(dims)]
    grid = GRIDS[dims - 2](*axes, np.zeros([6] * dims))
    m = case['count']
    coords = [np.full(m, 2.4 + k / 10) for k in range(dims)]
    bad = {'all': slice(None), 'some': slice(m // 3, m // 2 + 1),
           'last': slice(m - 1, m), 'nan': slice(None)}[case['bad']]
    at = case['axis'] % dims
    coords[at][bad] = np.nan if case['bad'] == 'nan' else 50.0
    if case['method'] in FITS:
        def call(bounds_error):
            return pyinterp.bicubic(grid, *coords, nx=3, ny=3,
                                    fitting_model=case['method'],
                                    bounds_error=bounds_error,
                                    num_threads=case['threads'])
    else:
        def call(bounds_error):
            return [pyinterp.bivariate, pyinterp.trivariate,
                    pyinterp.quadrivariate][dims - 2](
                        grid, *coords, interpolator=case['method'],
                        bounds_error=bounds_error,
                        num_threads=case['threads'])
    for _ in range(3):
        try:
            call(True)
        except ValueError as err:
            require('xyzu'[at] in str(err) or case['bad'] == 'nan',
                    f'{case}: {err}')
        else:
            require(False, f'{case}: no error')
    result = call(False)
    lost = np.zeros(m, bool)
    lost[bad] = True
    require(np.array_equal(np.isnan(result), lost), f'{case}: {result}')
    return 'error' if m > 1 else None


def run_shares(case):
    """Items given to the workers: each once, whatever their number."""
    library = templates.load()
    if library is None:
        return None
    size, threads = case
    covered = np.zeros(size, int)
    for start, stop in library.shares(size, threads):
        require(0 <= start <= stop <= size, f'{case}: from {start} to {stop}')
        covered[start:stop] += 1
    require(bool((covered == 1).all()),
            f'{case}: items taken {covered.tolist()} times')
    return ['more workers' if threads > size else 'several'] if (
        threads != 1 and size) else None



FACETS = [
    Facet('grids', grid_case(), run_grid, 2400, 3,
          'Interpolation of grids, all dimensions and methods.'),
    Facet('increasing', inplace_case(), run_inplace, 400, 1,
          'Axes of grids set increasing.'),
    Facet('scattered', scattered_case(), run_scattered, 1200, 2,
          'Indexes of scattered data.'),
    Facet('geodetic', geodetic_case(), run_geodetic, 1000, 1,
          'Geodetic functions, geohash and series.'),
    Facet('filling', fill_case(), run_fill, 400, 1, 'LOESS and relaxation.'),
    Facet('errors', error_case(), run_error, 500, 1,
          'Errors raised in threads.'),
    Facet('shares', st.tuples(st.one_of(st.integers(0, 20),
                                        st.integers(0, 3000)),
                              st.one_of(st.integers(0, 9),
                                        st.integers(0, 70))),
          run_shares, 300, 1, 'Items given to the workers.'),
    large.facet('G04'),
]
