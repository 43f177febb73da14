"""S02: merging statistics equals computing them on all samples."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import stats
from vf.engine import Facet, require

PARTS = ['axis', 'descriptive_statistics', 'streaming_histogram', 'binning',
         'histogram2d', 'geodetic']
RULE = """Histories of up to twelve operations (creation from zero to eight
samples, pushes, in-place and out-of-place merges in any grouping, self
merges, copies, pickles, clears) over a pool of up to five objects of one
class, in both precisions. After every operation each object of the pool is
compared to its model, the list of the samples it must hold, so that an
operand altered by a merge is noticed. Non-trivial: a merge of an object which
holds samples."""
ASSUMPTIONS = [
    'The capacity of the histograms exceeds the number of samples; beyond it '
    'see S03.',
    'Minimum and maximum are those of the values multiplied by their weights '
    'when there are weights.',
]
CELLS = 3

number = st.one_of(st.integers(-5, 5).map(float),
                   st.integers(-4000, 4000).map(lambda k: k / 16))
samples = st.lists(st.tuples(st.integers(0, CELLS - 1), number,
                             st.integers(1, 12)), max_size=8)
slot = st.integers(0, 4)


@st.composite
def operation(draw):
    kind = draw(st.sampled_from(['new', 'new', 'push', 'add', 'iadd', 'iadd',
                                 'copy', 'pickle', 'clear', 'bad']))
    op = {'op': kind, 'a': draw(slot), 'b': draw(slot), 'c': draw(slot)}
    if kind in ('new', 'push'):
        op['s'] = [list(x) for x in draw(samples)]
    return op


@st.composite
def case_of(draw):
    kind = draw(st.sampled_from(
        ['descriptive', 'descriptive', 'streaming', 'binning1d', 'binning2d',
         'linear', 'histogram2d']))
    return {'kind': kind, 'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'weights': draw(st.booleans()), 'spread': draw(st.booleans()),
            'wgs': draw(st.booleans()),
            'capacity': draw(st.sampled_from([1000, 1000, 2, 3, 6])),
            'ops': draw(st.lists(operation(), min_size=3, max_size=12))}


PRESERVED = ('count', 'sum_of_weights', 'mean', 'min', 'max')


class Driver:
    """The class under test behind the same operations."""

    def __init__(self, case):
        self.kind, self.dtype = case['kind'], np.dtype(case['dtype'])
        self.weights = case['weights'] and self.kind in (
            'descriptive', 'streaming', 'binning1d')
        self.spread = case['spread']
        self.wgs = case['wgs'] and self.kind in ('binning2d', 'linear')
        self.capacity = case.get('capacity', 1000)

    def axes(self, shift=0.0):
        x = core.Axis(np.arange(CELLS) * 10.0 + shift)
        y = core.Axis(np.array([-5.0, 5.0, 15.0]))
        return x, y

    def new(self, batch, shift=0.0):
        kind = self.kind
        if kind in ('descriptive', 'streaming'):
            cls = (pyinterp.DescriptiveStatistics if kind == 'descriptive'
                   else pyinterp.StreamingHistogram)
            extra = {} if kind == 'descriptive' else {
                'bin_count': self.capacity}
            n = max(len(batch), 1) + (1 if shift else 0)
            if self.spread:
                # One column per cell, undefined where there is no sample.
                v = np.full((n, CELLS + (1 if shift else 0)), np.nan)
                w = np.ones(v.shape)
                for k, (cell, value, weight) in enumerate(batch):
                    v[k, cell], w[k, cell] = value, weight / 4
                axis = (0, )
            else:
                v = np.array([b[1] for b in batch], dtype='f8')
                w = np.array([b[2] / 4 for b in batch], dtype='f8')
                axis = None
                if shift:
                    v, w, axis = v.reshape(1, -1), w.reshape(1, -1), (1, )
                    v, w = np.vstack([v, v]), np.vstack([w, w])
            return cls(v.astype(self.dtype), w.astype(self.dtype)
                       if self.weights else None, axis, dtype=self.dtype,
                       **extra)
        x, y = self.axes(shift)
        if kind == 'binning1d':
            result = pyinterp.Binning1D(x, dtype=self.dtype)
        elif kind == 'histogram2d':
            result = pyinterp.Histogram2D(x, y, self.capacity,
                                          dtype=self.dtype)
        else:
            wgs = None
            if self.wgs:
                wgs = pyinterp.geodetic.Spheroid()
            result = pyinterp.Binning2D(x, y, wgs, dtype=self.dtype)
        self.push(result, batch)
        return result

    def push(self, target, batch):
        """Samples placed on the nodes."""
        x = np.array([10.0 * b[0] for b in batch], self.dtype)
        z = np.array([b[1] for b in batch], self.dtype)
        if self.kind == 'binning1d':
            target.push(x, z, np.array([b[2] / 4 for b in batch], self.dtype)
                        if self.weights else None)
        elif self.kind == 'histogram2d':
            target.push(x, np.full(len(batch), 5, self.dtype), z)
        else:
            target.push(x, np.full(len(batch), 5, self.dtype), z,
                        simple=self.kind != 'linear')

    def pushes(self):
        return self.kind not in ('descriptive', 'streaming')

    def observe(self, obj):
        """Tables: one entry per cell."""
        kind = self.kind
        if kind in ('descriptive', 'streaming'):
            names = ['count', 'sum_of_weights', 'mean', 'min', 'max',
                     'skewness', 'kurtosis']
            tables = {n: getattr(obj, n)() for n in names}
            tables['variance'] = obj.var()
            if kind == 'descriptive':
                tables['sum'] = obj.sum()
        else:
            names = ['count', 'sum_of_weights', 'mean', 'min', 'max',
                     'skewness', 'kurtosis', 'variance']
            if kind != 'histogram2d':
                names.append('sum')
            tables = {n: obj.variable(n) for n in names}
            if kind == 'binning1d':
                tables = {n: t.reshape(-1) for n, t in tables.items()}
                require(tuple(obj.range()) == (0.0, 10.0 * (CELLS - 1)),
                        f'range {obj.range()}')
            else:
                for n, t in tables.items():
                    require(t.shape == (CELLS, 3), f'shape of {n}')
                extra = tables['count'][:, [0, 2]]
                require(not extra.any(), f'samples in other cells: '
                        f"{tables['count']}")
                tables = {n: t[:, 1] for n, t in tables.items()}
                if kind != 'histogram2d':
                    require((obj.wgs is not None) == self.wgs,
                            f'spheroid {obj.wgs}')
        return tables

    def model(self, content):
        """Samples of each cell."""
        one = self.kind in ('descriptive', 'streaming') and not self.spread
        groups = [[] for _ in range(1 if one else CELLS)]
        for cell, value, weight in content:
            groups[0 if one else cell].append(
                (float(self.dtype.type(value)),
                 weight / 4 if self.weights else 1.0))
        return groups


def check(driver, pool, where):
    eps = np.finfo(driver.dtype).eps
    for k, (obj, content) in pool.items():
        tables = driver.observe(obj)
        groups = driver.model(content)
        for cell, group in enumerate(groups):
            ref = stats.reference(group)
            got = {n: t[cell] for n, t in tables.items()}
            if driver.kind in ('streaming', 'histogram2d') and not group:
                got = {n: got[n] for n in PRESERVED}
            if (driver.kind in ('streaming', 'histogram2d')
                    and len(group) > driver.capacity):
                # Compressed: only these do not depend on the bins.
                got = {n: got[n] for n in PRESERVED}
            problem = stats.compare(got, ref, 4 * eps)
            require(problem is None,
                    f'{where}: object {k}, cell {cell}: {problem}')


def run(case):
    driver = Driver(case)
    pool = {}
    merged = False
    for step, op in enumerate(case['ops']):
        kind, a, b, c = op['op'], op['a'], op['b'], op['c']
        where = f'{case} step {step}'
        content = [tuple(s) for s in op.get('s', [])]
        if pool and kind != 'new':
            a, b = (sorted(pool)[k % len(pool)] for k in (a, b))
        if kind == 'new' or a not in pool:
            pool[a] = (driver.new(content), content)
        elif kind == 'push':
            if driver.pushes():
                driver.push(pool[a][0], content)
                pool[a] = (pool[a][0], pool[a][1] + content)
            else:
                obj = pool[a][0]
                obj += driver.new(content)
                require(obj is pool[a][0], f'{where}: += makes a new object')
                pool[a] = (obj, pool[a][1] + content)
        elif kind in ('add', 'iadd') and b in pool:
            merged = merged or bool(pool[a][1] or pool[b][1])
            together = pool[a][1] + pool[b][1]
            if len(together) > 400:
                continue
            if kind == 'add' and driver.kind != 'streaming':
                pool[c] = (pool[a][0] + pool[b][0], together)
            else:
                obj = pool[a][0]
                if driver.pushes():
                    if kind == 'iadd':
                        # The wrapped object is the one updated in place.
                        obj._instance += pool[b][0]._instance
                else:
                    obj += pool[b][0]
                pool[a] = (obj, together)
        elif kind == 'copy':
            obj = pool[a][0]
            if driver.kind == 'descriptive' and c % 2:
                twin = obj.copy()
            else:
                twin = copy.copy(obj)
                twin._instance = copy.copy(obj._instance)
            pool[c] = (twin, pool[a][1])
        elif kind == 'pickle':
            pool[c] = (pickle.loads(pickle.dumps(pool[a][0])), pool[a][1])
        elif kind == 'clear' and driver.pushes():
            pool[a][0].clear()
            pool[a] = (pool[a][0], [])
        elif kind == 'bad':
            # Merging what does not go together changes nothing.
            other = driver.new([(0, 1.0, 4)], 0.5)
            try:
                pool[a][0]._instance += other._instance
            except ValueError:
                pass
            else:
                require(False, f'{where}: incompatible operands are merged')
            if driver.kind != 'streaming':
                try:
                    pool[a][0] + other
                except ValueError:
                    pass
                else:
                    require(False, f'{where}: incompatible operands are added')
        check(driver, pool, where)
    if not merged:
        return None
    return [driver.kind, case['dtype'],
            'weights' if driver.weights else 'plain']


@st.composite
def split_case(draw):
    return {'n': draw(st.integers(1, 400)), 'seed': draw(st.integers(0, 99999)),
            'parts': draw(st.integers(1, 12)),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'weights': draw(st.booleans()),
            'offset': draw(st.sampled_from([0, 0, 1, 100, -5])),
            'cols': draw(st.integers(1, 3))}


def run_split(case):
    """Any partition and any tree of merges."""
    rng = np.random.default_rng(case['seed'])
    n, cols, dtype = case['n'], case['cols'], np.dtype(case['dtype'])
    data = (rng.normal(size=(n, cols)) + case['offset']).astype(dtype)
    data[rng.random(data.shape) < 0.1] = np.nan
    weights = (rng.random(data.shape) + 0.1).astype(dtype)
    owner = rng.integers(0, case['parts'], n)
    parts = [pyinterp.DescriptiveStatistics(
        data[owner == k], weights[owner == k] if case['weights'] else None,
        (0, ), dtype=dtype) for k in range(case['parts'])]
    while len(parts) > 1:
        i, j = rng.choice(len(parts), 2, replace=False)
        if rng.random() < 0.5:
            new = parts[i] + parts[j]
        else:
            new = parts[i]
            new += parts[j]
        parts = [p for k, p in enumerate(parts) if k not in (i, j)] + [new]
    got = parts[0]
    tables = {'count': got.count(), 'sum_of_weights': got.sum_of_weights(),
              'sum': got.sum(), 'mean': got.mean(), 'min': got.min(),
              'max': got.max(), 'variance': got.var(),
              'skewness': got.skewness(), 'kurtosis': got.kurtosis()}
    for col in range(cols):
        group = [(float(v), float(w) if case['weights'] else 1.0)
                 for v, w in zip(data[:, col], weights[:, col]) if v == v]
        problem = stats.compare({k: t[col] for k, t in tables.items()},
                                stats.reference(group),
                                2 * np.finfo(dtype).eps)
        require(problem is None, f'{case}: column {col}: {problem}')
    return case['dtype'] if n > 1 and case['parts'] > 1 else None


FACETS = [
    Facet('history', case_of, run, quick=700, shards=6, doc='after any '
          'history each object holds the statistics of its own samples'),
    Facet('partition', split_case, run_split, quick=250, shards=2,
          doc='any partition merged in any order gives the statistics of all'),
]
