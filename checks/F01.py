"""F01: LOESS filling is a local weighted mean."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
import pyinterp.fill as fill
from vf import defaults, gen, grids, large
from vf.engine import Facet, require

PARTS = ['fill', 'grid', 'axis']
RULE = """Grids of two to four dimensions, plain, circular or regional
longitudes, both directions, evenly spaced or not, axes of one node, random
masks from none to all, both precisions, the three selections of cells,
half windows of 1 to 4 cells, several numbers of threads. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a cell
is filled or smoothed with at least two weights and another one keeps its
value. The oracle is a direct weighted sum in Python; filling commutes with
the rotation of the circle and the reversal of the axes."""
ASSUMPTIONS = [
    'Distances are measured in the unit of the axes divided by the half '
    'windows, as implemented; longitudes are measured the shortest way.',
    'On a longitude axis the window does not exceed the axis (a node would be '
    'counted twice).',
]


@st.composite
def loess_case(draw, dims):
    frame = draw(st.sampled_from(['plain', 'plain', 'circle', 'part']))
    size = 7 if dims == 2 else 5
    nx, ny = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    scale = st.sampled_from([0.25, 0.5, 1.0, 1.5])
    if frame == 'circle':
        # Nodes close enough to have several weights.
        count = draw(st.sampled_from([120, 240, 360]))
        # Only a part of the rows is compared.
        x = {'circle': count, 'start': draw(st.sampled_from([0, -180, 0.25])),
             'down': draw(st.booleans())}
    else:
        least = 2 * nx + 1 if frame == 'part' else draw(
            st.sampled_from([2, 2, 2, 3]))
        x = draw(gen.axis_values(least, max(size, least), scale=scale,
                                 origin=st.integers(-400, 400).map(
                                     lambda k: k / 4)))['v']
        if frame == 'plain' and draw(st.integers(0, 9)) == 0:
            x = x[:1]
    y = draw(gen.axis_values(2, size, scale=scale))['v']
    if draw(st.integers(0, 9)) == 0:
        y = y[:1]
    others = []
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(3))
            unit = time['unit']
            others.append(time['v'])
        else:
            others.append(draw(grids.real_axis(3)))
    if dims > 3:
        others.append(draw(grids.real_axis(2)))
    return {'x': x, 'y': y, 'others': others, 'unit': unit, 'frame': frame,
            'nx': nx, 'ny': ny, 'seed': draw(st.integers(0, 999)),
            'holes': draw(st.sampled_from([0, 0.2, 0.5, 0.8, 0.95, 1])),
            'type': draw(st.sampled_from(['undefined', 'defined', 'all',
                                          None])),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'threads': draw(st.sampled_from([1, 2, 3, 0])),
            'roll': draw(st.integers(0, 400))}


def build(case, x, data, flip=()):
    axes = [core.Axis(x, is_circle=case['frame'] != 'plain'),
            core.Axis(np.array(case['y']))]
    for k, v in enumerate(case['others']):
        if k == 0 and case['unit']:
            axes.append(core.TemporalAxis(np.array(v, 'i8').view(
                f"M8[{case['unit']}]")))
        else:
            axes.append(core.Axis(np.array(v)))
    for k in flip:
        axes[k] = axes[k].flip(inplace=False)
        data = np.flip(data, k)
    return [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D][
        len(axes) - 2](*axes, data)


def mirror(k, n):
    if n == 1:
        return 0
    k %= 2 * n - 2
    return k if k < n else 2 * n - 2 - k


def run_loess(case):
    frame, kind = case['frame'], case['kind']
    if isinstance(case['x'], dict):
        n = case['x']['circle']
        x = case['x']['start'] + np.arange(n) * (360 / n)
        if case['x']['down']:
            x = x[::-1].copy()
    else:
        x = np.array(case['x'])
    y = np.array(case['y'])
    nx, ny = case['nx'], case['ny']
    shape = [len(x), len(y)] + [len(v) for v in case['others']]
    data = grids.values_of(case['seed'], shape, kind)
    rng = np.random.default_rng(case['seed'] + 1)
    data[rng.random(shape) < case['holes']] = np.nan
    saved = data.copy()
    grid = build(case, x, data)
    options = {'nx': nx, 'ny': ny, 'value_type': case['type'],
               'num_threads': case['threads']}
    got = fill.loess(grid, **options)
    where = {k: v for k, v in case.items() if k not in ('others', 'roll')}
    require(np.array_equal(data, saved, equal_nan=True) and np.array_equal(
        grid.array, saved, equal_nan=True), f'{where}: grid modified')
    require(got.shape == data.shape and got.dtype == data.dtype,
            f'{where}: result of shape {got.shape}, {got.dtype}')
    # The axes of the grid.
    x, y = grid.x[:], grid.y[:]
    n = len(x)
    rows = range(n) if n < 40 else sorted(
        {0, 1, 2, 3, n - 1, n - 2, n - 3, n - 4, n // 2, case['seed'] % n})
    tolerance = 1e-9 if kind == 'f8' else 1e-5
    filled = kept = 0
    compared = np.zeros(data.shape, bool)
    for ix in rows:
        xs = [(ix + k) % n if frame != 'plain' else mirror(ix + k, n)
              for k in range(-nx, nx + 1)]
        dx = x[xs] - x[ix]
        if frame != 'plain':
            dx = (dx + 180) % 360 - 180
        for iy in range(len(y)):
            ys = [mirror(iy + k, len(y)) for k in range(-ny, ny + 1)]
            d = np.sqrt((dx[:, None] / nx)**2 + ((y[ys] - y[iy]) / ny)**2)
            w = np.where(d <= 1, (1 - np.minimum(d, 1)**3)**3, 0)
            block = data[np.ix_(xs, ys)].astype('f8')
            for at in np.ndindex(*shape[2:]):
                value = data[(ix, iy) + at]
                z = block[(slice(None), slice(None)) + at]
                use = {'undefined': np.isnan(value), None: np.isnan(value),
                       'defined': not np.isnan(value), 'all': True
                       }[case['type']]
                mine = got[(ix, iy) + at]
                valid = ~np.isnan(z)
                weight = w[valid].sum()
                if use and weight < 1e-13 and valid.any() and np.abs(
                        d[valid] - 1).min() < 1e-9:
                    # On the edge of the window, up to rounding errors.
                    compared[(ix, iy) + at] = False
                    continue
                compared[(ix, iy) + at] = True
                if not use or weight < 1e-13:
                    require(mine == value or (np.isnan(mine) and
                                              np.isnan(value)),
                            f'{where}: cell {(ix, iy) + at} changed from '
                            f'{value} to {mine}')
                    kept += 1
                    continue
                expected = (w[valid] * z[valid]).sum() / weight
                scale = np.abs(z[valid]).max() + 1e-30
                if kind == 'f4' and weight < 1e-6:
                    continue
                # Nodes at the edge of the window have tiny weights.
                slack = 1 if weight > 1e-4 else 1e4
                require(abs(mine - expected) <= tolerance * slack * scale,
                        f'{where}: cell {(ix, iy) + at}: {mine}, expected '
                        f'{expected} (weight {weight})')
                filled += int((w[valid] > 0).sum() > 1)
    # Reversed axes, and another number of threads.
    options['num_threads'] = (case['threads'] + 1) % 4
    for flip in ((0, ), (1, ), tuple(range(len(shape)))):
        if any(shape[k] == 1 for k in flip):
            continue
        other = np.flip(fill.loess(build(case, x, saved, flip), **options),
                        flip)
        require(np.allclose(other[compared], got[compared], rtol=0, equal_nan=True, atol=(
            1e-7 if kind == 'f8' else 1e-3) * (1 + np.nanmax(
                np.abs(np.where(np.isnan(saved), 0, saved))))),
            f'{where}: the result changes when axes {flip} are reversed')
    if frame == 'circle':
        shift = case['roll'] % n
        turned = np.concatenate([x[shift:], x[:shift]])
        turn = 360.0 if x[1] > x[0] else -360.0
        turned[n - shift:] += turn
        other = np.roll(fill.loess(build(case, turned,
                                         np.roll(saved, -shift, 0)),
                                   **options), shift, 0)
        require(np.allclose(other[compared], got[compared], rtol=0, equal_nan=True, atol=(
            1e-7 if kind == 'f8' else 1e-3) * (1 + np.nanmax(
                np.abs(np.where(np.isnan(saved), 0, saved))))),
            f'{where}: the result changes when the circle is cut before '
            f'column {shift}')
    if not filled:
        return None
    return f'{frame} {case["type"]}'


FACETS = [
    Facet('loess2d', loess_case(2), run_loess, 700, 3, 'Two dimensions.'),
    Facet('loess3d', loess_case(3), run_loess, 400, 3, 'Three dimensions.'),
    Facet('loess4d', loess_case(4), run_loess, 250, 2, 'Four dimensions.'),
    defaults.facet('F01'),
    large.facet('F01'),
]
