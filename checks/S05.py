"""S05: two-dimensional histograms collect each sample in one cell."""
import copy
import math
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from checks import S04
from vf import defaults, gen, large, stats
from vf.engine import Facet, require

PARTS = ['axis', 'binning', 'histogram2d', 'streaming_histogram', 'geodetic']
RULE = """Grids whose axes are regular or not, increasing or decreasing, or
longitude circles, capacities from one to forty, both precisions; histories of
pushes, merges (in place, out of place, with itself), copies, pickles and
clears of samples in the cells, on the nodes, outside of the grid, on other
turns of the circle, undefined. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a sample falls in one cell for
sure. The oracle finds the nearest cell by exhaustive search, compares each
cell to the exact statistics of its samples as long as its capacity is not
exceeded, and otherwise to a streaming histogram of the same samples."""
ASSUMPTIONS = [
    'A sample at equal distance of two cells may fall in either.',
    'Samples outside the grid fall in the nearest cell.',
]


@st.composite
def batch(draw, nx, ny):
    few = draw(st.booleans())
    result = draw(st.lists(S04.sample(nx, ny), max_size=14))
    if few:
        for s in result:
            s[2] = float(int(s[2]) % 3)
    if result and draw(st.booleans()):
        # Many samples in the same cell.
        for s in result:
            s[0], s[1] = result[0][0], result[0][1]
    return result


@st.composite
def case_of(draw):
    x = draw(S04.grid_axis('x', draw(st.booleans())))
    y = draw(S04.grid_axis('y', False))
    nx = len(x['v']) + (2 if x['circle'] else 0)
    ny = len(y['v'])
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        op = {'op': draw(st.sampled_from(['push', 'push', 'add', 'iadd',
                                          'self', 'copy', 'pickle',
                                          'clear']))}
        if op['op'] in ('push', 'add', 'iadd', 'copy'):
            op['s'] = draw(batch(nx, ny))
        ops.append(op)
    return {'x': x, 'y': y, 'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            's': draw(batch(nx, ny)), 'ops': ops,
            'n': draw(st.sampled_from([None, 1, 2, 3, 5, 10, 40])),
            'm': draw(st.sampled_from([1, 2, 5, 40]))}


class Model:
    """Samples of each cell, and those whose cell is not certain."""

    def __init__(self, case):
        self.case = case
        self.dtype = np.dtype(case['dtype'])
        self.cells = {}
        self.vague = 0
        self.capacity = case['n'] or 100

    def make(self, n):
        case = self.case
        return pyinterp.Histogram2D(
            core.Axis(np.array(case['x']['v']), is_circle=case['x']['circle']),
            core.Axis(np.array(case['y']['v'])), n, dtype=self.dtype)

    def push(self, grid, samples):
        case = self.case
        xs = np.array([math.nan if s[4] == 'x' else S04.coordinates(
            case['x'], s[0], s[3]) for s in samples], self.dtype)
        ys = np.array([math.nan if s[4] == 'y' else S04.coordinates(
            case['y'], s[1], 0) for s in samples], self.dtype)
        zs = np.array([math.nan if s[4] == 'z' else s[2] for s in samples],
                      self.dtype)
        grid.push(xs, ys, zs)
        for c, d, z in zip(xs.tolist(), ys.tolist(), zs.tolist()):
            if c != c or d != d or z != z:
                continue
            i, j = S04.nearest(case['x'], c), S04.nearest(case['y'], d)
            if len(i) * len(j) > 1:
                self.vague += 1
            else:
                self.cells.setdefault((i[0], j[0]), []).append(z)

    def validate(self, grid, where):
        case, eps = self.case, float(np.finfo(self.dtype).eps)
        shape = len(case['x']['v']), len(case['y']['v'])
        names = ('count', 'sum_of_weights', 'mean', 'min', 'max', 'variance',
                 'skewness', 'kurtosis')
        tables = {n: grid.variable(n) for n in names}
        for name, table in tables.items():
            require(table.shape == shape, f'{where}: shape of {name}')
        total = sum(map(len, self.cells.values())) + self.vague
        require(int(tables['count'].sum()) == total,
                f"{where}: {tables['count'].sum()} samples, expected {total}")
        if self.vague:
            for key, group in self.cells.items():
                require(tables['count'][key] >= len(group),
                        f'{where}: samples missing in cell {key}')
            return
        histograms = grid._instance.histograms()
        quantiles = {q: grid.variable('quantile', q)
                     for q in (0.0, 0.3, 0.5, 1.0)}
        for key in np.ndindex(shape):
            group = self.cells.get(key, [])
            pairs = [(z, 1.0) for z in group]
            ref = stats.reference(pairs)
            here = {n: t[key] for n, t in tables.items()}
            bins = histograms[key]
            held = bins[~np.isnan(bins['value'])]
            require(len(held) <= self.capacity,
                    f'{where}: {len(held)} bins in cell {key}')
            require((bins['weight'][len(held):] == 0).all(),
                    f'{where}: padding of cell {key}')
            if not group:
                here = {n: here[n] for n in ('count', 'sum_of_weights', 'mean',
                                             'min', 'max')}
                require(not len(held) and all(
                    np.isnan(t[key]) for t in quantiles.values()),
                    f'{where}: cell {key} is not empty')
            elif len(set(group)) > self.capacity:
                # Compressed: what is preserved anyway.
                here = {n: here[n] for n in ('count', 'sum_of_weights', 'mean',
                                             'min', 'max')}
            problem = stats.compare(here, ref, 16 * eps)
            require(problem is None, f'{where}: cell {key}: {problem}')
            if not group:
                continue
            slack = 200 * eps * len(group) * (ref['scale'] + 1e-300)
            low, high = min(group), max(group)
            values = [float(t[key]) for t in quantiles.values()]
            require(abs(values[0] - low) <= slack
                    and abs(values[-1] - high) <= slack
                    and all(b >= a - slack
                            for a, b in zip(values, values[1:])),
                    f'{where}: quantiles of cell {key} are {values}')
            if len(set(group)) == len(group) <= self.capacity:
                require(np.array_equal(held['value'], np.array(
                    sorted(group), self.dtype)) and (
                        held['weight'] == 1).all(),
                    f'{where}: bins of cell {key} are {held}')
                # Exact histogram: the median is that of the samples.
                middle = float(np.interp(
                    0.5 * len(group), np.arange(len(group)) + 0.5,
                    sorted(group)))
                require(abs(values[2] - middle) <= slack,
                        f'{where}: median of cell {key} is {values[2]}, '
                        f'expected {middle}')


def run(case):
    model = Model(case)
    grid = model.make(case['n'])
    where = f'{case}'
    model.push(grid, case['s'])
    model.validate(grid, f'{where} start')
    for step, op in enumerate(case['ops']):
        kind = op['op']
        spot = f'{where} step {step}'
        if kind == 'push':
            model.push(grid, op['s'])
        elif kind in ('add', 'iadd'):
            other = model.make(case['m'])
            before = copy.copy(model.__dict__)
            kept = {k: list(v) for k, v in model.cells.items()}
            vague = model.vague
            # The other operand alone.
            model.cells, model.vague = {}, 0
            model.capacity = case['m']
            model.push(other, op['s'])
            alone = ({k: list(v) for k, v in model.cells.items()},
                     model.vague)
            model.validate(other, f'{spot} other')
            model.cells, model.vague = kept, vague
            model.capacity = before['capacity']
            if kind == 'add':
                result = grid + other
                model.validate(grid, f'{spot} left operand')
                grid = result
            else:
                grid._instance += other._instance
            for k, v in alone[0].items():
                if len(set(v)) > case['m']:
                    # The other operand was compressed.
                    return None
                model.cells.setdefault(k, []).extend(v)
            model.vague += alone[1]
        elif kind == 'self':
            if sum(map(len, model.cells.values())) > 200:
                continue
            grid._instance += grid._instance
            model.cells = {k: v + v for k, v in model.cells.items()}
            model.vague *= 2
        elif kind == 'copy':
            twin = copy.copy(grid)
            twin._instance = copy.copy(grid._instance)
            kept, vague = ({k: list(v) for k, v in model.cells.items()},
                           model.vague)
            model.push(twin, op['s'])
            model.validate(twin, f'{spot} copy')
            model.cells, model.vague = kept, vague
        elif kind == 'pickle':
            grid = pickle.loads(pickle.dumps(grid))
        else:
            grid.clear()
            model.cells, model.vague = {}, 0
        model.validate(grid, spot)
    if not model.cells:
        return None
    most = max(len(set(v)) for v in model.cells.values())
    return [case['dtype'], 'compressed' if most > model.capacity else 'exact',
            'circle' if case['x']['circle'] else 'plane']


@st.composite
def one_case(draw):
    return {'n': draw(st.integers(1, 30)), 'count': draw(st.integers(1, 120)),
            'seed': draw(st.integers(0, 99999)), 'pushes': draw(
                st.integers(1, 4)), 'style': draw(st.sampled_from(
                    ['real', 'int', 'cluster', 'negative'])),
            'dtype': draw(st.sampled_from(['f8', 'f4']))}


def run_one(case):
    """Each cell is the streaming histogram of its samples."""
    rng = np.random.default_rng(case['seed'])
    dtype, count = np.dtype(case['dtype']), case['count']
    grid = pyinterp.Histogram2D(core.Axis(np.arange(3.0)),
                                core.Axis(np.arange(2.0)), case['n'],
                                dtype=dtype)
    x = rng.integers(0, 3, count).astype(dtype)
    y = rng.integers(0, 2, count).astype(dtype)
    z = rng.normal(size=count) * 9
    if case['style'] == 'int':
        z = rng.integers(-20, 20, count)
    elif case['style'] == 'cluster':
        z = z / 50 + rng.integers(-2, 3, count)
    elif case['style'] == 'negative':
        z = -abs(z) - 3
    z = z.astype(dtype)
    for part in np.array_split(np.arange(count), case['pushes']):
        grid.push(x[part], y[part], z[part])
    bins = grid._instance.histograms()
    for i in range(3):
        for j in range(2):
            mine = z[(x == i) & (y == j)]
            one = pyinterp.StreamingHistogram(mine, bin_count=case['n'],
                                              dtype=dtype)
            n = int(one.size()[0])
            here = bins[i, j]
            require(np.array_equal(here[:n], one.bins()[0])
                    and np.isnan(here[n:]['value']).all(),
                    f'{case}: bins of cell {i}, {j}: {here[:n]}, expected '
                    f'{one.bins()[0]}')
            for name, got in (('count', 'count'), ('mean', 'mean'),
                              ('min', 'min'), ('max', 'max'),
                              ('variance', 'var'), ('skewness', 'skewness'),
                              ('kurtosis', 'kurtosis')):
                require(np.array_equal(grid.variable(name)[i, j],
                                       getattr(one, got)()[0],
                                       equal_nan=True),
                        f'{case}: {name} of cell {i}, {j}')
            for q in (0.1, 0.5, 0.77):
                require(np.array_equal(grid.variable('quantile', q)[i, j],
                                       one.quantile(q)[0], equal_nan=True),
                        f'{case}: quantile {q} of cell {i}, {j}')
    return case['style'] if count > 1 else None


def make_histogram(case, x, y, moved):
    return pyinterp.Histogram2D(x, y, 5, dtype=np.dtype(case['dtype']))


def foreign_case():
    return S04.foreign_case(('h',)).filter(lambda c: c['change'] != 'wgs')


FACETS = [
    Facet('foreign', foreign_case, lambda case: S04.run_foreign(
        case, make_histogram), quick=300, doc='grids which differ are not '
        'combined'),
    Facet('history', case_of, run, quick=600, shards=5, doc='after any history '
          'each cell holds its own samples'),
    Facet('cells', one_case, run_one, quick=300, doc='each cell is the '
          'streaming histogram of its samples'),
    defaults.facet('S05'),
    large.facet('S05'),
]
