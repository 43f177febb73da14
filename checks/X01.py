"""X01: labelled grids."""
import pickle

import hypothesis.strategies as st
import numpy as np
import pyinterp

from vf.engine import Facet, require

PARTS = ['grid', 'axis', 'bivariate', 'trivariate', 'quadrivariate', 'bicubic',
         'bivariate_interpolator']
RULE = """Arrays of two to four labelled dimensions, in every order, with names
of any kind, coordinates listed in any order, increasing or decreasing axes,
geographic (longitudes and latitudes known by their units) or not, with or
without an axis of dates or durations, with or without coordinates that are not
dimensions; points inside, on and outside the domain, named in any order; every
method. Non-trivial: a point inside the domain. The oracle interpolates in
numpy, by name; other methods are compared to the plain grid in its canonical
order. Calls with missing, unknown or ill-typed coordinates."""
ASSUMPTIONS = [
    'xarray is not installed in the sandbox: a small stand-in (vf/standins/'
    'xarray.py) imitates its documented interface',
    'in four dimensions, the methods given for the third and fourth axes '
    'follow the order of the dimensions, dates first',
    'without geographic axes, the surface is that of the first two '
    'coordinates of the array',
]
seeds = st.integers(0, 99999)
LON_UNITS = ['degrees_east', 'degree_east', 'degree_E', 'degrees_E',
             'degreeE', 'degreesE']
LAT_UNITS = ['degrees_north', 'degree_north', 'degree_N', 'degrees_N',
             'degreeN', 'degreesN']
UNITS = {'D': 86400 * 10**9, 'h': 3600 * 10**9, 'm': 60 * 10**9,
         's': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}


def module():
    import pyinterp.backends.xarray as backend
    import xarray
    return backend, xarray


@st.composite
def arrays(draw, ndims=(2, 3, 4)):
    ndim = draw(st.sampled_from(ndims))
    names = draw(st.lists(st.sampled_from(
        ['longitude', 'latitude', 'x', 'y', 'z', 'time', 'level', 'lon', 'lat',
         'depth', 'a', 'b', 'member', 'u']), min_size=ndim, max_size=ndim,
        unique=True))
    return {
        'names': names, 'order': list(draw(st.permutations(range(ndim)))),
        'listed': list(draw(st.permutations(range(ndim)))),
        'asked': list(draw(st.permutations(range(ndim)))),
        'down': [draw(st.booleans()) for _ in range(ndim)],
        'geodetic': draw(st.booleans()),
        'units': [draw(st.integers(0, 5)), draw(st.integers(0, 5))],
        'circle': draw(st.booleans()), 'view': draw(st.booleans()),
        'time': draw(st.sampled_from([None, None, 'M8', 'm8'])),
        'resolution': [draw(st.sampled_from(sorted(UNITS))) for _ in range(2)],
        'type': draw(st.sampled_from(['f8', 'f4', 'i2', 'u1'])),
        'extra': draw(st.sampled_from([None, None, 'first', 'last'])),
        'increasing': draw(st.booleans()),
        'method': draw(st.sampled_from(
            ['bilinear', 'bilinear', 'nearest', 'inverse_distance_weighting',
             'bicubic'])),
        'z': draw(st.sampled_from([None, None, 'linear', 'nearest'])),
        'u': draw(st.sampled_from([None, None, 'linear', 'nearest'])),
        'front': draw(st.booleans()), 'seed': draw(seeds),
        'regular': draw(st.booleans()), 'pickled': draw(st.booleans()),
        'threads': draw(st.sampled_from([0, 1, 2])),
    }


def make(case):
    """Axes (canonical order), values, labelled array, points."""
    rng = np.random.default_rng(case['seed'])
    ndim = len(case['names'])
    sizes = [int(rng.integers(4, 8)) for _ in range(ndim)]
    axes = []
    for k in range(ndim):
        step = rng.uniform(0.5, 2.0)
        start = rng.uniform(-20, 20)
        if case['geodetic'] and k == 0 and case['circle']:
            sizes[0] = int(rng.choice([8, 9, 12]))
            step, start = 360 / sizes[0], float(rng.choice([-180, 0, -90]))
        # Unevenly spaced axes too.
        steps = np.full(sizes[k], step)
        if not (case['circle'] and k == 0) and not case['regular']:
            steps = step * rng.uniform(0.6, 1.4, sizes[k])
        axes.append(start + np.concatenate([[0], np.cumsum(steps)[:-1]]))
    temporal = ndim > 2 and case['time'] is not None
    if temporal:
        # The axis of dates is always the third in the canonical order.
        unit = case['resolution'][0]
        ticks = np.cumsum(rng.integers(1, 9, sizes[2])) * 4 + int(
            rng.integers(0, 3000))
        if case['regular']:
            ticks = np.arange(sizes[2]) * 8 + int(rng.integers(0, 3000))
        axes[2] = ticks.astype('i8').view(f"{case['time']}[{unit}]")
    for k in range(ndim):
        if case['down'][k]:
            axes[k] = axes[k][::-1].copy()
    shape = tuple(a.size for a in axes)
    kind = case['type']
    if kind == 'u1' and (case['method'] == 'bicubic' or ndim > 2):
        kind = 'i2'  # bytes: bivariate interpolation only
    data = rng.integers(0, 100, shape).astype(kind)
    return axes, data, temporal


def labelled(case, axes, data):
    _, xarray = module()
    names = case['names']
    coords = {}
    if case['extra'] == 'first':
        coords['issued'] = xarray.DataArray(np.float64(3.5))
    for k in case['listed'] if case['geodetic'] else range(len(names)):
        attrs = {'long_name': names[k]}
        if case['geodetic'] and k < 2:
            attrs['units'] = (LON_UNITS, LAT_UNITS)[k][case['units'][k]]
        elif k == 0:
            attrs['units'] = 'm'
        values = axes[k].copy()
        if case['view']:
            # Memory in the other direction, as after a reversal.
            values = values[::-1].copy()[::-1]
        coords[names[k]] = xarray.DataArray(values, dims=(names[k], ),
                                            attrs=attrs)
    if case['extra'] == 'last':
        coords['issued'] = xarray.DataArray(np.float64(3.5))
    order = case['order']
    return xarray.DataArray(data.transpose(order).copy(), coords,
                            tuple(names[k] for k in order))


def number(axis):
    """Coordinates as floats, dates relative to the first one."""
    if axis.dtype.kind in 'mM':
        return axis.view('i8').astype('f8')
    return axis.astype('f8')


def draw_points(case, axes, temporal, n=12):
    rng = np.random.default_rng(case['seed'] + 1)
    points = []
    for k, axis in enumerate(axes):
        values = np.sort(number(axis))
        low, high = values[0], values[-1]
        if case['geodetic'] and k == 0 and case['circle']:
            at = rng.uniform(low, low + 360, n)
            nodes = rng.choice(values, n)
            at = np.where(rng.random(n) < 0.2, nodes, at)
            at = at + 360 * rng.integers(-1, 2, n)
            points.append(at)
            continue
        at = rng.uniform(low, high, n)
        at = np.where(rng.random(n) < 0.2, rng.choice(values, n), at)
        span = high - low
        if not (temporal and k == 2):
            at = np.where(rng.random(n) < 0.06, high + span, at)
        if temporal and k == 2:
            # A quarter of a tick at most, in a resolution that holds it.
            unit, other = case['resolution']
            ticks = np.rint(at).astype('i8')
            if UNITS[other] <= UNITS[unit]:
                ratio = UNITS[unit] // UNITS[other]
                instants = ticks * ratio
            else:
                other, ratio, instants = unit, 1, ticks
            points.append(instants.view(f"{case['time']}[{other}]"))
        else:
            points.append(at)
    return points


def lookup(axis, points, circle):
    """Cell and fraction of points along an axis, NaN outside."""
    order = np.argsort(axis)
    values = axis[order]
    if circle:
        values = np.append(values, values[0] + 360)
        order = np.append(order, order[0])
        points = (points - values[0]) % 360 + values[0]
    cell = np.clip(np.searchsorted(values, points, 'right') - 1, 0,
                   values.size - 2)
    frac = (points - values[cell]) / (values[cell + 1] - values[cell])
    frac = np.where((frac < -1e-9) | (frac > 1 + 1e-9), np.nan, frac)
    return order[cell], order[cell + 1], frac


def multilinear(case, axes, data, points, temporal):
    data = data.astype('f8')
    ndim = data.ndim
    found = []
    for k in range(ndim):
        axis, at = number(axes[k]), points[k]
        if temporal and k == 2:
            unit = UNITS[case['resolution'][0]]
            resolution = UNITS[np.datetime_data(at.dtype)[0]]
            at = at.view('i8') * (resolution / unit)
        found.append(lookup(axis, at, case['geodetic'] and k == 0
                            and case['circle']))
    total = np.zeros(len(points[0]))
    for corner in range(2**ndim):
        weight, index = 1.0, []
        for k, (left, right, frac) in enumerate(found):
            if corner >> k & 1:
                weight = weight * frac
                index.append(right)
            else:
                weight = weight * (1 - frac)
                index.append(left)
        total = total + weight * data[tuple(index)]
    return total


def plain(case, axes, data, temporal, ascending):
    """The plain grid, axes increasing if asked to."""
    axes, data = list(axes), data
    if ascending:
        for k, axis in enumerate(axes):
            if axis[0] > axis[-1]:
                axes[k] = axis[::-1].copy()
                data = np.flip(data, k)
    made = []
    for k, axis in enumerate(axes):
        if temporal and k == 2:
            made.append(pyinterp.TemporalAxis(axis))
        else:
            made.append(pyinterp.Axis(axis, is_circle=case['geodetic']
                                      and k == 0))
    kind = getattr(pyinterp, f'Grid{data.ndim}D')
    return kind(*made, np.ascontiguousarray(data))


NAMES = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}


def canonical(case):
    """The third and fourth axes follow the order of the dimensions."""
    ndim = len(case['names'])
    order = [0, 1]
    rest = [k for k in case['order'] if k > 1]
    if ndim > 2 and case['time'] is not None:
        rest = sorted(rest)
    if not case['geodetic']:
        order = [0, 1]
    return order + rest


def run_grid(case):
    backend, xarray = module()
    axes, data, temporal = make(case)
    ndim = data.ndim
    array = labelled(case, axes, data)
    before = array.values.copy()
    method = case['method']
    increasing = case['increasing'] or method == 'bicubic'
    if case['front']:
        labelled_grid = backend.RegularGridInterpolator(
            array, increasing_axes=increasing, geodetic=case['geodetic'])
        require(labelled_grid.ndim == ndim, 'number of dimensions')
        inner = labelled_grid.grid
    else:
        labelled_grid = getattr(backend, f'Grid{ndim}D')(
            array, increasing_axes=increasing, geodetic=case['geodetic'])
        inner = labelled_grid
    if case['pickled']:
        if case['front']:
            labelled_grid = pickle.loads(pickle.dumps(labelled_grid))
            inner = labelled_grid.grid
    order = canonical(case)
    points = draw_points(case, axes, temporal)
    coords = {case['names'][k]: points[k] for k in case['asked']}
    kwargs = {'bounds_error': False, 'num_threads': case['threads']}
    options = {}
    if method == 'bicubic':
        options = {'nx': 2, 'ny': 2, 'fitting_model': 'bicubic',
                   'boundary': 'undef'}
    else:
        if ndim > 2 and case['z']:
            options['z_method'] = case['z']
        if ndim > 3 and case['u']:
            options['u_method'] = case['u']
    if case['front']:
        if method == 'bicubic':
            got = labelled_grid(coords, method='bicubic',
                                bicubic_kwargs=options, **kwargs)
        else:
            got = labelled_grid(coords, method=method, **options, **kwargs)
    elif method == 'bicubic':
        got = labelled_grid.bicubic(coords, **options, **kwargs)
    else:
        got = getattr(labelled_grid, NAMES[ndim])(
            coords, interpolator=method, **options, **kwargs)
    require(np.array_equal(array.values, before), 'the array was modified')
    for k, name in enumerate(case['names']):
        require(np.array_equal(array.coords[name].values, axes[k]),
                f'coordinate {name} was modified')
    if increasing:
        require(inner.x.is_ascending() and inner.y.is_ascending(),
                'axes still decreasing')
    # The plain grid, in the order that its axes must have.
    reference = plain(case, [axes[k] for k in order], data.transpose(order),
                      temporal, increasing)
    at = [points[k] for k in order]
    if temporal:
        at[2] = reference.z.safe_cast(at[2])
    if method == 'bicubic':
        want = pyinterp.bicubic(reference, *at, **options, **kwargs)
    else:
        want = getattr(pyinterp, NAMES[ndim])(
            reference, *at, interpolator=method, **options, **kwargs)
    require(np.allclose(got, want, rtol=1e-4, atol=1e-3, equal_nan=True),
            f'{method}: {got} and not {want}', method)
    exact = (method == 'bilinear' and case['z'] != 'nearest'
             and case['u'] != 'nearest' or method == 'bilinear' and ndim == 2)
    if exact:
        want = multilinear(case, axes, data, points, temporal)
        require(np.allclose(got, want, rtol=1e-4, atol=2e-2, equal_nan=True),
                f'interpolated {got} and not {want}', 'value')
    if np.isnan(got).all():
        return None
    outside = np.isnan(got).any() and method != 'bicubic'
    if outside and not (case['geodetic'] and case['circle']) or outside:
        try:
            if case['front'] and method != 'bicubic':
                labelled_grid(coords, method=method, bounds_error=True,
                              **options)
            elif not case['front']:
                getattr(labelled_grid, NAMES[ndim])(
                    coords, interpolator=method, bounds_error=True, **options)
            else:
                raise ValueError
        except (ValueError, IndexError):
            pass
        else:
            require(False, 'points outside accepted', 'bounds')
    return [f'{ndim}D', method] + (['dates'] if temporal else [])


# ---------------------------------------------------------------------------
@st.composite
def wrong(draw):
    case = draw(arrays())
    case['method'] = 'bilinear'
    case['kind'] = draw(st.sampled_from(
        ['missing', 'unknown', 'extra', 'type', 'units', 'ndim', 'method',
         'dates', 'two dates', 'latitude']))
    case['other'] = draw(st.sampled_from(['w', 'heading', 'LON', '', 'issued']))
    return case


def refused(function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except (ValueError, TypeError, IndexError, KeyError,
            NotImplementedError):
        return True
    return False


def run_refused(case):
    backend, xarray = module()
    kind = case['kind']
    ndim = len(case['names'])
    if kind in ('units', 'latitude'):
        case = dict(case, geodetic=True)
    if kind == 'dates':
        if ndim == 2:
            return None
        case = dict(case, time='M8')
    axes, data, temporal = make(case)
    array = labelled(case, axes, data)
    points = draw_points(case, axes, temporal)
    coords = {case['names'][k]: points[k] for k in case['asked']}
    name = case['names'][case['asked'][0]]
    if kind in ('units', 'latitude'):
        name = case['names'][0 if kind == 'units' else 1]
        other = array.coords[name]
        other.attrs = dict(other.attrs)
        if case['circle']:
            del other.attrs['units']
        else:
            other.attrs['units'] = 'degrees'
        for build in (getattr(backend, f'Grid{ndim}D'),
                      backend.RegularGridInterpolator):
            require(refused(build, array), f'no unit for {name}')
        return kind
    if kind == 'ndim':
        for n in (2, 3, 4):
            if n != ndim:
                require(refused(getattr(backend, f'Grid{n}D'), array,
                                geodetic=case['geodetic']),
                        f'{ndim} dimensions accepted for {n}')
        flat = xarray.DataArray(data.ravel(), {'n': np.arange(data.size)},
                                ('n', ))
        require(refused(backend.RegularGridInterpolator, flat,
                        geodetic=False), 'one dimension accepted')
        large = xarray.DataArray(np.zeros((2, ) * 5))
        require(refused(backend.RegularGridInterpolator, large,
                        geodetic=False), 'five dimensions accepted')
        return kind
    if kind == 'two dates':
        if ndim != 4:
            return None
        axes[2] = np.arange(axes[2].size).astype('M8[D]')
        axes[3] = np.arange(axes[3].size).astype('M8[h]')
        array = labelled(case, axes, data)
        require(refused(backend.Grid4D, array, geodetic=case['geodetic']),
                'two axes of dates accepted')
        return kind
    item = backend.RegularGridInterpolator(array, geodetic=case['geodetic'])
    item(coords)
    if kind == 'missing':
        del coords[name]
    elif kind == 'unknown':
        if case['other'] in coords:
            return None
        coords = {case['other'] if k == name else k: v
                  for k, v in coords.items()}
    elif kind == 'extra':
        coords[case['other']] = points[0]
    elif kind == 'type':
        for bad in (list(coords.items()), tuple(coords.values()), None,
                    points[0]):
            require(refused(item, bad), f'{type(bad)} accepted')
        return kind
    elif kind == 'method':
        require(refused(item, coords, method='cubic'), 'unknown method')
        require(refused(item, coords, method='bicubic',
                        bicubic_kwargs={'fitting_model': 'square'}),
                'unknown model')
        return kind
    elif kind == 'dates':
        name = case['names'][2]
        coords[name] = np.arange(points[2].size).astype('f8')
    require(refused(item, coords), f'{kind}: {list(coords)} accepted for '
            f'{case["names"]}')
    return kind


FACETS = [
    Facet('grid', arrays(), run_grid, quick=700, shards=3,
          doc='interpolation by name of labelled arrays'),
    Facet('refused', wrong(), run_refused, quick=300,
          doc='missing, unknown or ill-typed coordinates'),
]
