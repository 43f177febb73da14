"""S03: streaming histograms are exact until compressed and conservative
after."""
import copy
import math
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp
from vf import defaults, large, stats
from vf.engine import Facet, require

PARTS = ['axis', 'streaming_histogram', 'histogram2d']
RULE = """Histories of pushes (creation then merge), merges with histograms of
other capacities, self merges, resizes (growing, shrinking, to one and to zero
bins), copies and pickles of streaming histograms of capacities from one to
forty; samples with or without duplicates, sorted, reversed or clustered,
positive, negative or mixed, with or without weights, in both precisions.
Large inputs and
structures of up to tens of thousands of items. Non-trivial: the histogram holds at least two distinct samples."""
ASSUMPTIONS = [
    'Weights are strictly positive and samples are finite.',
    'Minimum and maximum are those of the values multiplied by their weights '
    'when there are weights; quantiles are compared to the extremes only '
    'without weights.',
    'A histogram that has been reduced to zero bins only keeps its count and '
    'its extremes.',
]


@st.composite
def batch(draw):
    style = draw(st.sampled_from(['any', 'few', 'sorted', 'reversed',
                                  'negative', 'positive', 'same']))
    base = {'few': st.integers(-3, 3), 'negative': st.integers(-900, -700),
            'positive': st.integers(500, 900), 'same': st.just(7)}.get(
                style, st.integers(-999, 999))
    v = draw(st.lists(base, max_size=30))
    v = sorted(v, reverse=style == 'reversed') if style in (
        'sorted', 'reversed') else v
    return [[x / 8, draw(st.integers(1, 40)) / 8] for x in v]


@st.composite
def case_of(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['push', 'push', 'push', 'resize', 'copy',
                                     'pickle', 'self']))
        op = {'op': kind}
        if kind == 'push':
            op['s'] = draw(batch())
            op['n'] = draw(st.integers(1, 40))
        if kind == 'resize':
            op['n'] = draw(st.integers(0 if not draw(st.integers(0, 5)) else 1,
                                       40))
        ops.append(op)
    return {'s': draw(batch()), 'n': draw(st.integers(1, 40)), 'ops': ops,
            'dtype': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'weights': draw(st.booleans()),
            'q': draw(st.lists(st.integers(0, 1000), min_size=1, max_size=6))}


def make(samples, n, dtype, weights):
    v = np.array([s[0] for s in samples], dtype)
    w = np.array([s[1] for s in samples], dtype) if weights else None
    return pyinterp.StreamingHistogram(v, w, bin_count=n,
                                       dtype=np.dtype(dtype))


def validate(hist, samples, capacity, exact, case, where):
    dtype, weights = case['dtype'], case['weights']
    eps = float(np.finfo(dtype).eps)
    size = int(hist.size()[0])
    bins = hist.bins()
    require(bins.shape == (1, size), f'{where}: shape of bins {bins.shape}')
    require(size <= capacity, f'{where}: {size} bins, capacity {capacity}')
    group = [(v, w if weights else 1.0) for v, w in samples]
    count = int(hist.count()[0])
    require(count == len(group), f'{where}: count {count}, {len(group)}')
    if not group:
        require(size == 0 and math.isnan(hist.min()[0])
                and math.isnan(hist.max()[0])
                and math.isnan(hist.quantile(0.5)[0])
                and math.isnan(hist.mean()[0]),
                f'{where}: statistics of no sample')
        return
    ref = stats.reference(group)
    top = ref['scale'] * max(ref['weight'], 1)
    for name in ('min', 'max'):
        got = float(getattr(hist, name)()[0])
        require(abs(got - ref[name]) <= 4 * eps * top,
                f'{where}: {name} {got}, expected {ref[name]}')
    if exact is None:
        return
    if not size:
        require(False, f'{where}: no bin for {count} samples')
    value = bins['value'][0].astype('f8')
    weight = bins['weight'][0].astype('f8')
    rel = 40 * eps * count
    require((value[1:] - value[:-1] >= -rel * ref['scale']).all(),
            f'{where}: bins are not sorted {value.tolist()}')
    require((weight > 0).all(), f'{where}: weights {weight.tolist()}')
    total = weight.sum()
    for label, got, expected, tol in (
            ('weight of the bins', total, ref['sum_of_weights'],
             rel * ref['sum_of_weights']),
            ('sum_of_weights', float(hist.sum_of_weights()[0]),
             ref['sum_of_weights'], rel * ref['sum_of_weights']),
            ('mean of the bins', (value * weight).sum() / total, ref['mean'],
             rel * ref['scale']),
            ('mean', float(hist.mean()[0]), ref['mean'],
             rel * ref['scale'])):
        require(abs(got - expected) <= tol,
                f'{where}: {label} {got}, expected {expected}')
    lo, hi = min(v for v, _ in group), max(v for v, _ in group)
    slack = rel * ref['scale']
    require(lo - slack <= value[0] and value[-1] <= hi + slack,
            f'{where}: bins [{value[0]}, {value[-1]}] outside [{lo}, {hi}]')
    # Merging bins never increases the spread of the samples.
    spread = ref['mom2'] / ref['sum_of_weights']
    variance = float(hist.var()[0])
    noise = rel * (ref['spread']**2 + ref['scale'] * ref['spread']) + (
        rel * ref['scale'])**2
    require(-noise <= variance <= spread + noise,
            f'{where}: variance {variance} exceeds {spread}')
    require(abs(float(hist.std()[0])**2 - variance) <= noise + 1e-12,
            f'{where}: standard deviation')
    distinct = {}
    for v, w in group:
        distinct[v] = distinct.get(v, 0.0) + w
    if exact and len(distinct) <= capacity:
        held = {}
        for v, w in zip(value, weight):
            near = min(distinct, key=lambda x: abs(x - v))
            require(abs(near - v) <= slack,
                    f'{where}: bin {v} is not a sample')
            held[near] = held.get(near, 0.0) + w
        for v, w in distinct.items():
            require(abs(held.get(v, 0.0) - w) <= rel * ref['sum_of_weights'],
                    f'{where}: weight of {v} is {held.get(v, 0.0)}, '
                    f'expected {w}')
        problem = stats.compare(
            {'variance': variance, 'skewness': float(hist.skewness()[0]),
             'kurtosis': float(hist.kurtosis()[0])}, ref, 8 * eps)
        require(problem is None, f'{where}: {problem}')
    # Quantiles.
    grid = sorted({0.0, 1.0, 0.5, *(q / 1000 for q in case['q'])})
    found = [float(hist.quantile(q)[0]) for q in grid]
    require(all(b >= a - slack for a, b in zip(found, found[1:])),
            f'{where}: quantiles {found} of {grid}')
    if not weights:
        require(abs(found[0] - lo) <= slack and abs(found[-1] - hi) <= slack,
                f'{where}: quantiles 0 and 1 are {found[0]} and {found[-1]}, '
                f'expected {lo} and {hi}')
        require(lo - slack <= min(found) and max(found) <= hi + slack,
                f'{where}: quantiles {found} outside [{lo}, {hi}]')
    else:
        low = min(lo, ref['min'])
        high = max(hi, ref['max'])
        require(low - slack <= min(found) and
                max(found) <= high + slack,
                f'{where}: quantiles {found} outside [{low}, {high}]')
    # Between the middles of the first and last bins, the cumulated weight of
    # the bins up to a quantile, half of those around it included, is its own.
    middle = np.cumsum(weight) - weight / 2
    inner = [q for q in grid if middle[0] < q * total < middle[-1]]
    for q in inner:
        expected = float(np.interp(q * total, middle, value))
        got = float(hist.quantile(q)[0])
        # A steep part of the distribution amplifies rounding errors.
        around = np.interp([(q - rel) * total, (q + rel) * total], middle,
                           value)
        require(around[0] - slack <= got <= around[1] + slack,
                f'{where}: quantile {q} is {got}, expected {expected}')


def run(case):
    dtype, weights = case['dtype'], case['weights']
    hist = make(case['s'], case['n'], dtype, weights)
    samples = list(case['s'])
    capacity = case['n']
    # Exact as long as a compression has never merged distinct samples.
    exact = len({s[0] for s in samples}) <= capacity
    where = f'{case}'
    validate(hist, samples, capacity, exact, case, f'{where} start')
    for step, op in enumerate(case['ops']):
        kind = op['op']
        spot = f'{where} step {step}'
        if kind == 'push':
            other = make(op['s'], op['n'], dtype, weights)
            kept = other.bins().copy()
            twice = len({s[0] for s in op['s']}) <= op['n']
            hist += other
            require(np.array_equal(other.bins(), kept),
                    f'{spot}: the other operand is modified')
            samples += op['s']
            exact = None if exact is None else exact and twice
        elif kind == 'resize':
            hist._instance.resize(op['n'])
            capacity = op['n']
        elif kind == 'copy':
            old = hist
            kept = old.bins().copy()
            hist = copy.copy(old)
            hist._instance = copy.copy(old._instance)
            hist += make([[1.5, 1.0], [-2.5, 1.0]], 9, dtype, weights)
            samples += [[1.5, 1.0], [-2.5, 1.0]]
            require(np.array_equal(old.bins(), kept),
                    f'{spot}: the original of the copy is modified')
        elif kind == 'pickle':
            kept = hist.bins().copy()
            hist = pickle.loads(pickle.dumps(hist))
            require(np.array_equal(hist.bins(), kept),
                    f'{spot}: the bins change in the pickle')
        else:
            if len(samples) > 300:
                continue
            hist += hist
            samples = samples + samples
        if capacity == 0 and samples:
            exact = None
        if exact:
            exact = len({s[0] for s in samples}) <= capacity
        validate(hist, samples, capacity, exact, case, spot)
    if len({s[0] for s in samples}) < 2:
        return None
    return [dtype, 'weights' if weights else 'plain',
            'exact' if exact else 'lost' if exact is None else 'compressed']


@st.composite
def axis_case(draw):
    ndim = draw(st.integers(1, 3))
    shape = draw(st.lists(st.integers(1, 6), min_size=ndim, max_size=ndim))
    axis = list(draw(st.permutations(range(ndim))))[:draw(
        st.integers(0, ndim))]
    return {'shape': shape, 'axis': axis, 'seed': draw(st.integers(0, 9999)),
            'n': draw(st.sampled_from([None, 1, 2, 3, 5, 20])),
            'dtype': draw(st.sampled_from(['f8', 'f4'])),
            'weights': draw(st.booleans())}


def run_axis(case):
    """Reduced axes: each cell is the histogram of its own samples."""
    rng = np.random.default_rng(case['seed'])
    shape, axis = tuple(case['shape']), case['axis']
    data = (rng.integers(-40, 40, shape) / 4).astype(case['dtype'])
    data[rng.random(shape) < 0.15] = np.nan
    weights = (rng.integers(1, 9, shape) / 4).astype(
        case['dtype']) if case['weights'] else None
    dtype = np.dtype(case['dtype'])
    got = pyinterp.StreamingHistogram(data, weights, tuple(axis),
                                      bin_count=case['n'], dtype=dtype)
    kept = [k for k in range(len(shape)) if k not in axis]
    out = tuple(shape[k] for k in kept)
    bins = got.bins()
    size = got.size()
    require(size.shape == out and bins.shape[:-1] == out,
            f'{case}: shapes {size.shape} {bins.shape}')
    for index in np.ndindex(out):
        cut = [slice(None)] * len(shape)
        for k, i in zip(kept, index):
            cut[k] = i
        part = np.ascontiguousarray(data[tuple(cut)]).reshape(-1)
        w = None if weights is None else np.ascontiguousarray(
            weights[tuple(cut)]).reshape(-1)
        one = pyinterp.StreamingHistogram(part, w, bin_count=case['n'],
                                          dtype=dtype)
        n = int(size[index])
        require(n == int(one.size()[0]), f'{case}: size at {index}')
        require(np.array_equal(bins[index][:n], one.bins()[0]),
                f'{case}: bins at {index}')
        require(np.isnan(bins[index][n:]['value']).all(),
                f'{case}: padding at {index}')
        for name in ('count', 'sum_of_weights', 'mean', 'min', 'max', 'var',
                     'skewness', 'kurtosis', 'quantile'):
            require(np.array_equal(getattr(got, name)()[index],
                                   getattr(one, name)()[0], equal_nan=True),
                    f'{case}: {name} at {index}')
    return 'some' if data.size > 1 else None


@st.composite
def step_case(draw):
    return {'n': draw(st.integers(1, 12)), 'seed': draw(st.integers(0, 99999)),
            'count': draw(st.integers(1, 40)),
            'style': draw(st.sampled_from(['real', 'int', 'cluster'])),
            'weights': draw(st.booleans()), 'less': draw(st.booleans())}


def run_step(case):
    """A compression merges the two closest bins."""
    rng = np.random.default_rng(case['seed'])
    n, count = case['n'], case['count']
    values = rng.normal(size=count) * 5
    if case['style'] == 'int':
        values = rng.integers(-20, 20, count).astype('f8')
    elif case['style'] == 'cluster':
        values = rng.normal(size=count) * 0.1 + rng.integers(-2, 3, count)
    weights = rng.integers(1, 9, count) / 4.0
    hist = make(np.stack([values, weights], 1).tolist(), n, 'f8',
                case['weights'])
    before = [tuple(b) for b in hist.bins()[0].tolist()]
    if case['less']:
        target = max(len(before) - 1, 1)
        hist._instance.resize(target)
        full = before
    else:
        target = n
        new = (float(rng.integers(-20, 20)) if case['style'] == 'int' else
               float(rng.normal() * 5), 1.25 if case['weights'] else 1.0)
        hist += make([new], 3, 'f8', case['weights'])
        full = sorted(before + [new])
    after = [tuple(b) for b in hist.bins()[0].tolist()]
    if len(full) <= target:
        require(len(after) == len(full), f'{case}: {before} gives {after}')
        return None
    gaps = [b[0] - a[0] for a, b in zip(full, full[1:])]
    best = min(gaps)
    for k, gap in enumerate(gaps):
        if gap > best + 1e-12:
            continue
        (v0, w0), (v1, w1) = full[k:k + 2]
        merged = full[:k] + [((v0 * w0 + v1 * w1) / (w0 + w1), w0 + w1)
                             ] + full[k + 2:]
        # Equal values may be listed in any order.
        if len(merged) == len(after) and all(
                abs(a[0] - b[0]) <= 1e-11 and (
                    abs(a[1] - b[1]) <= 1e-11 or best == 0)
                for a, b in zip(merged, after)):
            return 'resize' if case['less'] else 'push'
    require(False, f'{case}: {full} reduced to {target} bins gives {after}')


FACETS = [
    Facet('closest', step_case, run_step, quick=500, doc='a compression '
          'merges the two closest bins into their weighted mean'),
    Facet('history', case_of, run, quick=1500, shards=4, doc='exact until '
          'compressed, conservative after'),
    Facet('axes', axis_case, run_axis, quick=400, doc='each cell of a reduced '
          'array is the histogram of its samples'),
    defaults.facet('S03'),
    large.facet('S03'),
]
