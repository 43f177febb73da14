"""F02: relaxation filling solves the Laplace equation around the data."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
import pyinterp.fill as fill
from vf import defaults, grids, large
from vf.engine import Facet, require

PARTS = ['fill', 'grid', 'axis']
RULE = """Grids of 1 to 9 rows and columns (odd and even circles, plain axes,
one row or column), random masks from one hole to no data, both precisions,
both first guesses, any relaxation constant of ]0, 2[, any number of iterations
and of threads, stacks of grids. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two undefined cells and
one defined. Oracles: the residual bounds the distance of each cell to the mean
of its neighbours; the dense solution of the discrete Laplace equation when
converged; defined cells are unchanged; the same result for every number of
threads."""
ASSUMPTIONS = [
    'The residual is the largest correction of the last iteration: with the '
    'constant w a cell is within max(1/w, 2 - 1/w) residuals of the mean of '
    'its neighbours.',
    'The range of the data is kept for constants up to 1; beyond, iterations '
    'overshoot and only the converged solution keeps it.',
]


@st.composite
def grid_case(draw):
    circle = draw(st.booleans())
    nx = draw(st.integers(3 if circle else 1, 9))
    ny = draw(st.integers(1, 9))
    return {'circle': circle, 'nx': nx, 'ny': ny,
            'nz': draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            'seed': draw(st.integers(0, 9999)),
            'holes': draw(st.sampled_from([0.05, 0.3, 0.6, 0.9, 1.0])),
            'kind': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'guess': draw(st.sampled_from(['zero', 'zonal_average'])),
            'relaxation': draw(st.sampled_from(
                [None, None, 1.0, 0.5, 0.9, 1.3, 1.7, 1.9])),
            'iterations': draw(st.sampled_from([None, 1, 2, 7, 50, 5000])),
            'epsilon': draw(st.sampled_from([1e-4, 1e-2, 1e-10])),
            'threads': draw(st.sampled_from([1, 2, 3, 5, 16, 0])),
            'order': draw(st.sampled_from('CF')),
            'level': draw(st.sampled_from([0, 0, 100]))}


def neighbours(ix, iy, nx, ny, circle):
    """The four neighbours, mirrored or wrapped around."""
    def one(k, n, wrap):
        if wrap:
            return (k - 1) % n, (k + 1) % n
        if n == 1:
            return 0, 0
        return (1 if k == 0 else k - 1), (n - 2 if k == n - 1 else k + 1)
    a, b = one(ix, nx, circle)
    c, d = one(iy, ny, False)
    return [(a, iy), (b, iy), (ix, c), (ix, d)]


def laplace(data, circle):
    """Exact solution, or None where it is undetermined."""
    nx, ny = data.shape
    holes = [tuple(p) for p in np.argwhere(np.isnan(data))]
    number = {p: k for k, p in enumerate(holes)}
    a = np.zeros((len(holes), len(holes)))
    b = np.zeros(len(holes))
    for p, k in number.items():
        a[k, k] += 1
        for q in neighbours(*p, nx, ny, circle):
            if q in number:
                a[k, number[q]] -= 0.25
            else:
                b[k] += 0.25 * data[q]
    result = data.copy()
    if np.linalg.cond(a) > 1e7:
        return None
    for p, v in zip(holes, np.linalg.solve(a, b)):
        result[p] = v
    return result


def run_grid(case):
    nx, ny, nz, circle = case['nx'], case['ny'], case['nz'], case['circle']
    shape = (nx, ny, nz) if nz else (nx, ny)
    kind = case['kind']
    data = grids.values_of(case['seed'], shape, kind)
    data += np.dtype(kind).type(case['level'])
    rng = np.random.default_rng(case['seed'] + 1)
    data[rng.random(shape) < case['holes']] = np.nan
    data = np.array(data, order=case['order'])
    saved = data.copy()
    x = core.Axis(np.arange(nx) * (360.0 / nx), is_circle=True) if circle \
        else core.Axis(np.arange(nx, dtype='f8'))
    axes = [x, core.Axis(np.arange(ny, dtype='f8'))]
    if nz:
        axes.append(core.Axis(np.arange(nz, dtype='f8')))
    require(axes[0].is_circle == circle, f'{case}: axis is not a circle')
    grid = (pyinterp.Grid3D if nz else pyinterp.Grid2D)(*axes, data)
    options = {'first_guess': case['guess'], 'max_iteration':
               case['iterations'], 'epsilon': case['epsilon'],
               'relaxation': case['relaxation']}
    converged, filled = fill.gauss_seidel(grid, num_threads=case['threads'],
                                          **options)
    require(np.array_equal(data, saved, equal_nan=True) and np.array_equal(
        grid.array, saved, equal_nan=True), f'{case}: the grid is modified')
    require(filled.shape == shape and filled.dtype == data.dtype,
            f'{case}: result of shape {filled.shape}, {filled.dtype}')
    holes = np.isnan(saved)
    require(np.array_equal(filled[~holes], saved[~holes]),
            f'{case}: a defined value is modified')
    require(not np.isnan(filled).any(), f'{case}: a value is undefined')
    for threads in (1, 2, 4):
        again = fill.gauss_seidel(grid, num_threads=threads, **options)
        require(again[0] == converged and np.array_equal(again[1], filled),
                f'{case}: another result with {threads} threads')
    w = case['relaxation']
    if w is None:
        # The optimal constant of the documentation.
        n = nx if nx == ny else nx * ny * np.sqrt(2 / (nx**2 + ny**2))
        w = 2 / (1 + np.pi / n)
    factor = max(1 / w, 2 - 1 / w)
    scale = np.abs(filled).max() + 1
    rounding = (1e-13 if kind == 'f8' else 1e-5) * scale
    layers = range(nz) if nz else [None]
    every = True
    for iz in layers:
        part, full = (saved, filled) if iz is None else (
            saved[:, :, iz], filled[:, :, iz])
        part, full = part.astype('f8'), full.astype('f8')
        mask = np.isnan(part)
        if not mask.any():
            continue
        # The number of iterations and the residual, by the core function.
        core_function = getattr(core.fill, 'gauss_seidel_float64' if kind ==
                                'f8' else 'gauss_seidel_float32')
        work = np.array(part, dtype=kind)
        count, residual = core_function(
            work, core.fill.FirstGuess.Zero if case['guess'] == 'zero' else
            core.fill.FirstGuess.ZonalAverage, circle,
            nx * ny if case['iterations'] is None else case['iterations'],
            case['epsilon'], w, case['threads'])
        require(np.array_equal(work, full.astype(kind)),
                f'{case}: layer {iz}: another result with the core function '
                'and the documented constant')
        limit = nx * ny if case['iterations'] is None else case['iterations']
        require(0 < count <= limit, f'{case}: {count} iterations')
        require(count == limit or residual < case['epsilon'],
                f'{case}: stopped at the iteration {count}, residual '
                f'{residual}')
        every &= residual <= np.dtype(kind).type(case['epsilon'])
        for ix, iy in np.argwhere(mask):
            mean = np.mean([full[q] for q in neighbours(ix, iy, nx, ny,
                                                        circle)])
            require(abs(full[ix, iy] - mean) <= factor * residual + rounding,
                    f'{case}: layer {iz}: cell {(ix, iy)} is '
                    f'{full[ix, iy]}, mean of its neighbours {mean}, '
                    f'residual {residual}')
        # Range of the data and of the first guess.
        known = part[~mask].tolist()
        if case['guess'] == 'zero' or mask.all(axis=0).any():
            known.append(0.0)
        if w <= 1:
            require(min(known) - rounding <= full.min() and
                    full.max() <= max(known) + rounding,
                    f'{case}: values {full.min()}, {full.max()} out of the '
                    f'range {min(known)}, {max(known)}')
        if not mask.all() and kind == 'f8' and residual < 1e-10 and \
                case['epsilon'] == 1e-10:
            exact = laplace(part, circle)
            if exact is not None:
                require(np.allclose(exact, full, rtol=0, atol=1e-5 * scale),
                        f'{case}: layer {iz}: {full.tolist()}, the solution '
                        f'is {exact.tolist()}')
    require(converged == every, f'{case}: converged {converged}, expected '
            f'{every}')
    if holes.sum() < 2 or holes.all():
        return None
    return [case['guess'], 'converged' if converged else 'stopped',
            'circle' if circle else 'plain']


FACETS = [
    Facet('relax', grid_case(), run_grid, 500, 6,
          'Cells, residuals, threads and solution.'),
    defaults.facet('F02'),
    large.facet('F02'),
]
