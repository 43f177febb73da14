"""G02: grid interpolation never invents values outside the domain."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import gen, grids, large
from vf.engine import Facet, require

PARTS = ['bivariate', 'trivariate', 'quadrivariate', 'bicubic']
RULE = """Grids with two to four axes, some of them circles, with undefined
values at random nodes, and batches mixing points inside, far outside, and with
undefined or infinite coordinates; every method, several numbers of threads.
Large inputs and
structures of up to tens of thousands of items. Non-trivial: the batch mixes defined and undefined results. Oracles: the domain
of the axes; each point alone; the grid with its undefined values replaced by
two arbitrary sets of numbers (a defined result cannot depend on them, and is
required where no node used is undefined)."""
ASSUMPTIONS = [
    'Points outside the domain lie at least 1/1000 of a cell outside.',
    'The window of the bicubic and spline methods must hold in the axis '
    '(boundary "undef").',
]
METHODS = ['bilinear', 'nearest', 'inverse_distance_weighting', 'bicubic',
           'c_spline', 'akima', 'linear', 'polynomial', 'steffen']
FUNCTIONS = [pyinterp.bivariate, pyinterp.trivariate, pyinterp.quadrivariate]


@st.composite
def position(draw, n, spline):
    """Inside, outside or special position along an axis."""
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(st.sampled_from(['nan', 'inf', '-inf']))
    if how == 1:
        return (draw(st.sampled_from([-1, n - 1, -3, n + 2])),
                draw(st.sampled_from([0.5, 0.25, 0.001, 0.999])))
    return draw(gen.inside(n))


@st.composite
def batch_case(draw, dims):
    method = draw(st.sampled_from(METHODS))
    spline = method not in METHODS[:3]
    # The models need at least so many points.
    half_min = {'linear': 1, 'akima': 3}.get(method, 2) if spline else 1
    least = max(2 * half_min, 3)
    size = {2: 8, 3: 5, 4: 4}[dims]
    xy = 7 if spline else size
    circle = draw(st.booleans())
    asc = True if spline else None
    if circle:
        x = draw(gen.circle_values(8 if spline else 6,
                                   min_size=max(least, 3),
                                   descending=not asc if asc else None))['v']
    elif spline:
        x = draw(gen.axis_values(least, xy, descending=False, origin=st.just(0.0),
                                 scale=st.sampled_from([1.0, 0.5])))['v']
    else:
        x = draw(grids.real_axis(size, -170, 170))
    if spline:
        y = draw(gen.axis_values(least, xy, descending=False,
                                 origin=st.just(-30.0),
                                 scale=st.just(0.5)))['v']
    else:
        y = draw(grids.real_axis(size, -88, 88))
    axes = [x, y]
    unit = None
    if dims > 2:
        if draw(st.booleans()):
            time = draw(grids.date_axis(4))
            unit, v = time['unit'], time['v']
            axes.append(v)
        else:
            axes.append(draw(grids.real_axis(4)))
    if dims > 3:
        axes.append(draw(grids.real_axis(4)))
    points = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.booleans()):
            points.append([draw(gen.inside(len(v))) for v in axes])
        else:
            points.append([draw(position(len(v), spline)) for v in axes])
    holes = draw(st.lists(st.tuples(*[st.integers(0, len(v) - 1)
                                      for v in axes]), max_size=4))
    half = [max(half_min, min(len(v) // 2, 4)) for v in axes[:2]]
    return {'axes': axes, 'circle': circle, 'unit': unit, 'points': points,
            'holes': holes, 'method': method,
            'nx': draw(st.integers(half_min, half[0])),
            'ny': draw(st.integers(half_min, half[1])),
            'seed': draw(st.integers(0, 999)),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'threads': draw(st.sampled_from([1, 1, 2, 3, 0]))}


def coordinate(v, at, date):
    """Value of a position; None if it is not a number of the axis."""
    if isinstance(at, str):
        return -2**63 if date else float(at)
    if date:
        cell, frac = at
        if 0 <= cell < len(v) - 1:
            return grids.place_int(v, cell, frac)
        step = v[1] - v[0] if cell < 0 else v[-1] - v[-2]
        base = v[0] if cell < 0 else v[-1] + (cell - len(v) + 1) * step
        k = cell if cell < 0 else 0
        return base + k * step + int(frac * step)
    return gen.place(v, *at)


def run_batch(case):
    dims, unit, method = len(case['axes']), case['unit'], case['method']
    spline = method not in METHODS[:3]
    axes = []
    for k, v in enumerate(case['axes']):
        if k == 2 and unit:
            axes.append(core.TemporalAxis(np.array(v, 'i8').view(
                f'M8[{unit}]')))
        else:
            axes.append(core.Axis(np.array(v), is_circle=k == 0 and
                                  case['circle']))
    if case['circle'] and not axes[0].is_circle:
        return None
    shape = [len(v) for v in case['axes']]
    clean = grids.values_of(case['seed'], shape, case['kind'])
    holed = clean.copy()
    for hole in case['holes']:
        holed[tuple(hole)] = np.nan
    other = clean.copy()
    for hole in case['holes']:
        other[tuple(hole)] += 1000
    coords = []
    for k, v in enumerate(case['axes']):
        date = k == 2 and unit is not None
        coords.append([coordinate(v, p[k], date) for p in case['points']])
    outside = []
    for p in zip(*coords):
        bad = set()
        for k, (v, c) in enumerate(zip(case['axes'], p)):
            if not np.isfinite(c):
                bad.add('xyzu'[k])
            elif not (k == 0 and case['circle']) and not (
                    min(v) <= c <= max(v)):
                bad.add('xyzu'[k])
        outside.append(bad)

    def run(data, select=slice(None), error=False, threads=case['threads']):
        grid = [pyinterp.Grid2D, pyinterp.Grid3D, pyinterp.Grid4D][dims - 2](
            *axes, data)
        args = [np.array(c[select], 'i8' if k == 2 and unit else 'f8')
                for k, c in enumerate(coords)]
        if unit:
            args[2] = args[2].view(f'M8[{unit}]')
        if spline:
            return pyinterp.bicubic(grid, *args, nx=case['nx'], ny=case['ny'],
                                    fitting_model=method, bounds_error=error,
                                    num_threads=threads)
        return FUNCTIONS[dims - 2](grid, *args, interpolator=method,
                                   bounds_error=error, num_threads=threads)

    where = str(case)
    result = run(holed)
    full, moved = run(clean), run(other)
    labels = {method}
    mixed = set()
    for i, bad in enumerate(outside):
        alone = run(holed, slice(i, i + 1), threads=1)[0]
        require(np.array_equal(alone, result[i], equal_nan=True),
                f'{where}: point {i} is {result[i]} in the batch, '
                f'{alone} alone')
        if bad:
            require(np.isnan(result[i]) and np.isnan(full[i]),
                    f'{where}: point {i} outside ({bad}): {result[i]}')
            mixed.add('outside')
            continue
        if np.isnan(result[i]):
            # An undefined value of the cell or of the window.
            if not case['holes']:
                require(spline, f'{where}: point {i} undefined')
                mixed.add('window')
            elif not spline:
                near = True
                for k, v in enumerate(case['axes']):
                    c = coords[k][i]
                    if k == 0 and case['circle']:
                        continue
                    cells = grids.cells_of(
                        v, c, 0 if isinstance(c, int) else 1e-6 *
                        abs(v[1] - v[0]))
                    touched = {j for a in cells for j in (a, a + 1)}
                    near = near and any(h[k] in touched for h in case['holes'])
                require(near, f'{where}: point {i} undefined although no '
                        'corner is')
                mixed.add('hole')
            else:
                mixed.add('hole or window')
        else:
            require(np.isfinite(result[i]), f'{where}: point {i} {result[i]}')
            scale = 1e-9 * (1 + abs(full[i]))
            require(abs(full[i] - result[i]) <= scale and
                    abs(moved[i] - result[i]) <= scale,
                    f'{where}: point {i} is {result[i]} with undefined '
                    f'values, {full[i]} and {moved[i]} with numbers')
            mixed.add('defined')
    # Errors when they are requested.
    wrong = set().union(*outside) if outside else set()
    try:
        asked = run(clean, error=True)
    except ValueError as err:
        text = str(err)
        if spline:
            if not wrong:
                require(any(np.isnan(full)), f'{where}: refused: {text}')
            names = [k for k in 'xyzu' if f'of the {k} axis' in text]
        else:
            names = [k for k in 'xyzu' if f'for axis {k} [' in text]
            require(wrong, f'{where}: refused: {text}')
            require(set(names) <= wrong, f'{where}: {text}, outside {wrong}')
        require(len(names) == 1, f'{where}: error {text}')
        labels.add('error')
    else:
        require(not wrong, f'{where}: no error, outside {wrong}')
        require(np.array_equal(asked, full, equal_nan=True),
                f'{where}: {asked} with errors requested, {full}')
        if spline:
            require(not np.isnan(asked).any(), f'{where}: undefined, no error')
    return sorted(labels) if len(mixed) > 1 else None


FACETS = [
    Facet('grid2d', batch_case(2), run_batch, 1500, 2, 'Two dimensions.'),
    Facet('grid3d', batch_case(3), run_batch, 1500, 2, 'Three dimensions.'),
    Facet('grid4d', batch_case(4), run_batch, 1000, 3, 'Four dimensions.'),
    large.facet('G02'),
]
