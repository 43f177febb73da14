"""S01: descriptive statistics match their definition."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
from vf import defaults, large, stats
from vf.engine import Facet, require

PARTS = ['descriptive_statistics']
RULE = """Arrays of zero to five dimensions, sizes from zero to a few
thousands, in both precisions and several memory layouts (contiguous, Fortran,
strided, reversed, broadcast and added dimensions, integers), with undefined
samples, with or without strictly positive weights, and every subset of axes
in any order. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two defined samples. The oracle groups the
samples by an independent walk of the array and computes central moments in
extended precision."""
ASSUMPTIONS = [
    'Weights are strictly positive.',
    'Minimum and maximum are those of the values multiplied by their weights.',
]
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'newaxis', 'int', 'list']


@st.composite
def case_of(draw):
    ndim = draw(st.integers(0, 5))
    top = {0: 1, 1: 60, 2: 9, 3: 6, 4: 4, 5: 3}[ndim]
    shape = [draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, top))
             for _ in range(ndim)]
    if ndim == 1 and draw(st.integers(0, 19)) == 0:
        shape = [draw(st.integers(1000, 5000))]
    axis = None
    if draw(st.integers(0, 3)):
        axis = draw(st.permutations(range(ndim)))[
            :draw(st.integers(0, ndim))] if ndim else []
        axis = list(axis)
    return {'shape': shape, 'axis': axis, 'seed': draw(st.integers(0, 99999)),
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'layout': draw(st.sampled_from(LAYOUTS)),
            'holes': draw(st.sampled_from([0, 0, 0.1, 0.5, 0.9, 1])),
            'weights': draw(st.sampled_from(
                [None, 'ones', 'int', 'real', 'wide'])),
            'style': draw(st.sampled_from(
                ['real', 'int', 'flat', 'offset', 'two', 'tiny'])),
            'ddof': draw(st.integers(0, 3))}


def samples_of(rng, shape, style):
    if style == 'int':
        return rng.integers(-9, 9, shape).astype('f8')
    if style == 'flat':
        return np.full(shape, float(rng.integers(-3, 4)) / 4)
    if style == 'offset':
        return 1000 + rng.normal(size=shape)
    if style == 'two':
        return rng.integers(0, 2, shape).astype('f8') * 10 - 3
    if style == 'tiny':
        return rng.normal(size=shape) * 1e-6
    return rng.normal(size=shape) * 10 + rng.integers(-20, 20)


def weights_of(rng, shape, kind):
    if kind == 'ones':
        return np.ones(shape)
    if kind == 'int':
        return rng.integers(1, 5, shape).astype('f8')
    if kind == 'real':
        return rng.random(shape) + 0.05
    return 10.0**rng.integers(-3, 4, shape)


def lay(array, layout):
    if layout == 'F' and array.ndim:
        return np.asfortranarray(array)
    if layout == 'strided' and array.ndim:
        wide = np.zeros(tuple(2 * n for n in array.shape), array.dtype)
        wide[tuple(slice(None, None, 2) for _ in array.shape)] = array
        return wide[tuple(slice(None, None, 2) for _ in array.shape)]
    if layout == 'reversed' and array.ndim:
        flip = tuple(slice(None, None, -1) for _ in array.shape)
        return np.ascontiguousarray(array[flip])[flip]
    return array


def run(case):
    rng = np.random.default_rng(case['seed'])
    shape, layout = tuple(case['shape']), case['layout']
    data = samples_of(rng, shape, case['style']).astype(case['dtype'])
    data = np.asarray(data)
    if layout == 'int':
        data = np.round(data).astype('i4' if case['dtype'] == 'f8' else 'i2')
    else:
        data[rng.random(shape) < case['holes']] = np.nan
    weights = None
    if case['weights']:
        weights = np.asarray(weights_of(rng, shape, case['weights']),
                             dtype=case['dtype'])
    axis = case['axis']
    given, given_w = lay(data, layout), weights
    if weights is not None:
        given_w = lay(weights, layout if layout != 'F' else 'C')
    if layout == 'newaxis' and axis is not None and len(shape) < 5:
        # A dimension added to a view, reduced or not.
        k = case['seed'] % (len(shape) + 1)
        cut = (slice(None), ) * k + (None, )
        data, given = data[cut], given[cut]
        if weights is not None:
            weights, given_w = weights[cut], given_w[cut]
        shape = data.shape
        axis = [a + (a >= k) for a in axis]
        if case['seed'] % 3 == 0:
            axis = axis + [k]
    if layout == 'list' and case['dtype'] == 'f8' and data.size:
        given = data.tolist()
        given_w = weights if weights is None else weights.tolist()
    saved = np.array(given, copy=True)
    arg = axis
    if axis is not None:
        arg = axis[0] if len(axis) == 1 and case['seed'] % 2 else (
            tuple(axis) if case['seed'] % 3 else list(axis))
    got = pyinterp.DescriptiveStatistics(given, given_w, arg,
                                         dtype=np.dtype(case['dtype']))
    require(np.array_equal(np.asarray(given), saved, equal_nan=saved.dtype.kind
                           == 'f'), f'{case}: the samples are modified')
    reduced = range(len(shape)) if axis is None else axis
    kept = [k for k in range(len(shape)) if k not in reduced]
    out = tuple(shape[k] for k in kept) if axis is not None else (1, )
    groups = {index: [] for index in np.ndindex(out)}
    for index in np.ndindex(shape):
        v = float(data[index])
        if v == v:
            key = tuple(index[k] for k in kept) if axis is not None else (0, )
            groups[key].append(
                (v, 1.0 if weights is None else float(weights[index])))
    ddof = case['ddof']
    tables = {'count': got.count(), 'sum_of_weights': got.sum_of_weights(),
              'sum': got.sum(), 'mean': got.mean(), 'min': got.min(),
              'max': got.max(), 'variance': got.var(ddof=ddof),
              'std': got.std(ddof=ddof), 'skewness': got.skewness(),
              'kurtosis': got.kurtosis()}
    for name, table in tables.items():
        require(table.shape == out, f'{case}: shape of {name} {table.shape}, '
                f'expected {out}')
        require(table.dtype == ('u8' if name == 'count' else case['dtype']),
                f'{case}: type of {name} {table.dtype}')
    eps = np.finfo(case['dtype']).eps
    for index, samples in groups.items():
        problem = stats.compare({k: t[index] for k, t in tables.items()},
                                stats.reference(samples), eps, ddof)
        require(problem is None, f'{case}: {problem} at {index}')
        if len(samples) > 1 and len({v for v, _ in samples}) == 1 and (
                weights is None):
            require(np.isnan(tables['skewness'][index])
                    and np.isnan(tables['kurtosis'][index]),
                    f'{case}: shape statistics of equal samples at {index}')
    array = got.array()
    if axis is None or kept:
        for name, field in (('count', 'count'), ('mean', 'mean'),
                            ('min', 'min'), ('max', 'max'), ('sum', 'sum'),
                            ('sum_of_weights', 'sum_of_weights'),
                            ('kurtosis', 'kurtosis'),
                            ('skewness', 'skewness')):
            require(np.array_equal(array[field], tables[name], equal_nan=True),
                    f'{case}: field {field} of the array')
        require(np.array_equal(array['var'], got.var(), equal_nan=True),
                f'{case}: field var of the array')
    most = max((len(s) for s in groups.values()), default=0)
    if most < 2:
        return None
    return [case['dtype'], layout, 'weights' if case['weights'] else 'plain',
            'all' if axis is None else f'{len(kept)} kept of {len(shape)}']


@st.composite
def refused(draw):
    ndim = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['axis', 'weights', 'ndim']))
    return {'shape': draw(st.lists(st.integers(1, 4), min_size=ndim,
                                   max_size=ndim)),
            'kind': kind, 'axis': draw(st.one_of(
                st.integers(-3, -1), st.integers(ndim, ndim + 2))),
            'other': draw(st.integers(0, ndim - 1)),
            'where': draw(st.booleans()), 'grow': draw(st.booleans())}


def run_refused(case):
    """Axes and weights that do not match the array are refused."""
    shape = tuple(case['shape'])
    data = np.ones(shape)
    kind = case['kind']
    weights, axis = None, None
    if kind == 'axis':
        axis = [case['other'], case['axis']]
        axis = axis[::-1] if case['where'] else axis
    elif kind == 'weights':
        other = list(shape)
        other[case['other']] += 1 if case['grow'] else -1
        weights = np.ones(other)
        axis = (0, ) if case['where'] else None
    else:
        weights = np.ones(shape + (1, )) if case['grow'] else np.ones(
            shape[1:])
        axis = (0, ) if case['where'] else None
    try:
        got = pyinterp.DescriptiveStatistics(data, weights, axis)
    except (ValueError, IndexError, TypeError):
        return kind
    require(False, f'{case}: accepted, {got.count()}')


FACETS = [
    Facet('definition', case_of, run, quick=1500, shards=4, doc='every '
          'statistic equals its definition for every shape and axes'),
    Facet('refused', refused, run_refused, quick=300, doc='axes and weights '
          'that do not match the samples are refused'),
    defaults.facet('S01'),
    large.facet('S01'),
]
