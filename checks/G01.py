"""G01: grid interpolation agrees with its mathematical definition."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import defaults, gen, grids, large
from vf.engine import Facet, require

PARTS = ['bivariate', 'trivariate', 'quadrivariate']
RULE = """Grids with two, three or four axes (both directions, evenly spaced or
not, dates of several resolutions on the third axis), values of every data type,
and points placed in the cells (nodes, edges, middles, anywhere). Large inputs and
structures of up to tens of thousands of items. Non-trivial: a
point strictly inside a cell. The oracle searches the enclosing cell in Python
and combines its corners with the published formula; points on an edge may use
either cell and ties either node."""
ASSUMPTIONS = [
    'The latitudes lie in [-90, 90] for the methods which use distances.',
    'Distances of the nearest and inverse-distance methods are great-circle '
    'distances between (x, y) in degrees.',
    'Absolute tolerance 1e-7 of the spread of the values.',
]
METHODS = ['bilinear', 'bilinear', 'nearest', 'inverse_distance_weighting']


@st.composite
def grid_case(draw, dims):
    method = draw(st.sampled_from(METHODS))
    size = {2: 8, 3: 6, 4: 4}[dims]
    if method == 'bilinear':
        axes = [draw(grids.real_axis(size)), draw(grids.real_axis(size))]
    else:
        axes = [draw(grids.real_axis(size, -360, 360)),
                draw(grids.real_axis(size, -90, 90))]
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(size))
            unit = time['unit']
            axes.append(time['v'])
        else:
            axes.append(draw(grids.real_axis(size)))
    if dims > 3:
        axes.append(draw(grids.real_axis(size)))
    points = draw(st.lists(st.tuples(*[gen.inside(len(v)) for v in axes]),
                           min_size=1, max_size=6))
    if method != 'bilinear':
        # Not at a negligible distance from a node.
        points = [[(cell, int(frac * 2**16) / 2**16) for cell, frac in point]
                  for point in points]
    kinds = ['f8', 'f4', 'i8', 'i4', 'i2', 'u2', 'u4', 'u8']
    if dims == 2:
        kinds += ['i1', 'u1']
    return {'axes': axes, 'unit': unit, 'points': points, 'method': method,
            'p': draw(st.integers(1, 5)),
            'zm': draw(st.sampled_from(['linear', 'nearest'])),
            'um': draw(st.sampled_from(['linear', 'nearest'])),
            'kind': draw(st.sampled_from(kinds)),
            'seed': draw(st.integers(0, 2**20)),
            'threads': draw(st.sampled_from([1, 1, 1, 2, 0]))}


def make_axis(v, unit=None):
    if unit:
        return core.TemporalAxis(np.array(v, 'i8').view(f'M8[{unit}]'))
    return core.Axis(np.array(v))


def run_grid(case):
    dims = len(case['axes'])
    unit = case['unit']
    axes = [make_axis(v, unit if k == 2 else None)
            for k, v in enumerate(case['axes'])]
    values = [v if k == 2 and unit else axes[k][:].tolist()
              for k, v in enumerate(case['axes'])]
    data = grids.values_of(case['seed'], [len(v) for v in values],
                           case['kind'])
    grid = [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D][dims - 2](
        *axes, data)
    points = []
    for pos in case['points']:
        points.append([
            grids.place_int(v, *at) if k == 2 and unit else gen.place(v, *at)
            for k, (v, at) in enumerate(zip(values, pos))])
    coords = [np.array(c, 'i8' if k == 2 and unit else 'f8')
              for k, c in enumerate(zip(*points))]
    if unit:
        coords[2] = coords[2].view(f'M8[{unit}]')
    options = {'interpolator': case['method'], 'bounds_error': True,
               'num_threads': case['threads']}
    if case['method'].startswith('inverse'):
        options['p'] = case['p']
    if dims > 2:
        options['z_method'] = case['zm']
    if dims > 3:
        options['u_method'] = case['um']
    function = [pyinterp.bivariate, pyinterp.trivariate,
                pyinterp.quadrivariate][dims - 2]
    result = function(grid, *coords, **options)
    require(result.shape == (len(points), ), f'shape {result.shape}')
    stored = data.astype('f4') if case['kind'] in (
        'f4', 'i4', 'i2', 'u2', 'u4') else data.astype('f8')
    spread = float(stored.max()) - float(stored.min()) + 1e-3
    where = f'{ {k: v for k, v in case.items() if k != "points"} }'
    labels = set()
    for point, got in zip(points, result.tolist()):
        expected = grids.interpolate(values, stored, point, case['method'],
                                     case['p'], case['zm'], case['um'])
        cond = max(max(map(abs, v)) / min(abs(b - a) for a, b in zip(v, v[1:]))
                   for k, v in enumerate(values) if not (k == 2 and unit))
        tol = spread * (1e-7 + 1e-13 * cond)
        error = min(abs(got - e) for e in expected)
        require(error <= tol, f'{where}: {got} at {point} instead of '
                f'{sorted(set(expected))}')
        inside = all(c not in v for c, v in zip(point, values))
        if inside:
            labels.add(case['method'] + (' time' if unit else ''))
    return sorted(labels) or None


FACETS = [
    Facet('grid2d', grid_case(2), run_grid, 2500, 2, 'Two dimensions.'),
    Facet('grid3d', grid_case(3), run_grid, 2000, 3,
          'Three dimensions, time included.'),
    Facet('grid4d', grid_case(4), run_grid, 1200, 3,
          'Four dimensions, time included.'),
    defaults.facet('G01'),
    large.facet('G01'),
]
