"""T02: time axes convert dates exactly."""
import warnings

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from vf import gen, large
from vf.engine import Facet, require

PARTS = ['axis', 'grid', 'trivariate', 'bivariate', 'quadrivariate']
RULE = """A time axis (dates or durations, any resolution, both directions,
evenly spaced or not) and dates written in another resolution. Large inputs and
structures of up to tens of thousands of items. Non-trivial: the
two resolutions differ. The oracle converts the instants with integer arithmetic
(weeks to attoseconds) or NumPy's calendar (months, years) and searches the axis
exhaustively."""
ASSUMPTIONS = [
    'The instants are representable in both resolutions.',
    'Interpolating along time uses the dates cast by the axis, as the labelled '
    'grids do.',
]
UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']
SECONDS = {'W': 7 * 86400, 'D': 86400, 'h': 3600, 'm': 60, 's': 1}
#: Attoseconds per unit.
ATTO = {k: v * 10**18 for k, v in SECONDS.items()}
ATTO.update({u: 10**(15 - 3 * i) for i, u in enumerate(
    ['ms', 'us', 'ns', 'ps', 'fs', 'as'])})


def months_to_days(months):
    return int(np.datetime64(months, 'M').astype('M8[D]').astype('i8'))


def convert(value, src, dst):
    """Floor conversion of an instant given in a unit to another one."""
    if src == dst:
        return value
    if src in ('Y', 'M'):
        months = value * (12 if src == 'Y' else 1)
        if dst == 'M':
            return months
        if dst == 'Y':
            return months // 12
        atto = months_to_days(months) * ATTO['D']
    else:
        atto = value * ATTO[src]
    if dst in ('Y', 'M'):
        day = atto // ATTO['D']
        months = int(np.datetime64(day, 'D').astype('M8[M]').astype('i8'))
        return months if dst == 'M' else months // 12
    return atto // ATTO[dst]


def fits(value):
    return -2**62 < value < 2**62


@st.composite
def pair_of_units(draw, timedelta):
    pool = UNITS if not timedelta else UNITS[2:]
    i = draw(st.integers(0, len(pool) - 1))
    j = min(max(i + draw(st.integers(-3, 3)), 0), len(pool) - 1)
    return pool[i], pool[j]


@st.composite
def lookup_case(draw):
    kind = draw(st.sampled_from(['datetime64', 'datetime64', 'timedelta64']))
    a, b = draw(pair_of_units(kind == 'timedelta64'))
    n = draw(st.integers(2, 12))
    if draw(st.booleans()):
        gaps = [draw(st.integers(1, 40))] * (n - 1)
    else:
        n = max(n, 3)
        gaps = draw(gen.steps(n - 1))
    scale = draw(st.sampled_from([1, 1, 6, 24, 1000, 3600]))
    if a in ('Y', 'M', 'W'):
        scale = 1
    coarse = UNITS.index(b) < UNITS.index(a)
    start = draw(st.integers(-400, 400)) * scale
    v = [start]
    for g in gaps:
        v.append(v[-1] + g * scale)
    if draw(st.booleans()):
        v = v[::-1]
    # Dates: positions on the axis, converted into the other unit, moved.
    coords = []
    for cell, frac in draw(st.lists(gen.cells(n, 2), min_size=1, max_size=8)):
        at = int(round(gen.place(v, cell, frac)))
        moved = convert(at, a, b)
        if not coarse:
            moved += draw(st.one_of(st.just(0), st.integers(-2000, 2000),
                                    st.integers(0, 86400)))
        if fits(moved):
            coords.append(moved)
    return {'kind': kind, 'a': a, 'b': b, 'v': v, 'c': coords or [v[0]]}


def call(function):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        result = function()
    return result, [w for w in caught if w.category is UserWarning]


def run_lookup(case):
    a, b, kind = case['a'], case['b'], case['kind']
    v = case['v']
    if len(v) > 2 and np.ptp(np.diff(v)) and any(
            abs(x) < 1 for x in np.diff(v)):
        return None
    axis = core.TemporalAxis(np.array(v, 'i8').view(f'{kind}[{a}]'))
    dates = np.array(case['c'], 'i8').view(f'{kind}[{b}]')
    exact = [convert(c, b, a) for c in case['c']]
    if not all(map(fits, exact)):
        return None
    finer = UNITS.index(b) > UNITS.index(a)
    where = f'axis {v} [{kind} {a}], dates {case["c"]} [{b}]'
    cast, caught = call(lambda: axis.safe_cast(dates))
    require(bool(caught) == finer, f'{where}: {len(caught)} warnings')
    require(cast.dtype == np.dtype(f'{kind}[{a}]'), f'{where}: {cast.dtype}')
    if kind == 'timedelta64' and finer:
        # NumPy truncates durations toward zero or downwards.
        for got, c in zip(cast.astype('i8').tolist(), case['c']):
            low = convert(c, b, a)
            high = -convert(-c, b, a)
            require(got in (low, high), f'{where}: cast to {got}')
        exact = cast.astype('i8').tolist()
    require(cast.astype('i8').tolist() == exact,
            f'{where}: cast {cast.astype("i8").tolist()}, {exact}')
    near, caught = call(lambda: axis.find_index(dates).tolist())
    require(bool(caught) == finer, f'{where}: {len(caught)} warnings')
    clamp, _ = call(lambda: axis.find_index(dates, bounded=True).tolist())
    pairs, caught = call(lambda: axis.find_indexes(dates).tolist())
    require(bool(caught) == finer, f'{where}: {len(caught)} warnings')
    lo, hi = min(v), max(v)
    step = abs(v[1] - v[0])
    regular = np.ptp(np.diff(v)) == 0
    for c, i, k, p in zip(exact, near, clamp, pairs):
        dist = [abs(c - x) for x in v]
        if lo <= c <= hi:
            require(0 <= i and dist[i] == min(dist) and i == k,
                    f'{where}: {c} nearest {i}, clamped {k}')
            i0, i1 = p
            require(min(p) >= 0 and abs(i1 - i0) == 1 and
                    min(v[i0], v[i1]) <= c <= max(v[i0], v[i1]),
                    f'{where}: {c} between {p}')
        else:
            end = v.index(lo) if c < lo else v.index(hi)
            require(k == end, f'{where}: {c} clamped to {k}')
            require(p == [-1, -1], f'{where}: {c} outside, between {p}')
            far = min(dist) > (step + 1) // 2 or not regular
            require(i == -1 or (not far and i == end),
                    f'{where}: {c} outside, nearest {i}')
    return ('coarser' if finer else 'finer') if a != b else None


@st.composite
def mismatch_case(draw):
    a, b = draw(pair_of_units(True))
    kinds = draw(st.sampled_from([('datetime64', 'timedelta64'),
                                  ('timedelta64', 'datetime64'),
                                  ('datetime64', 'int64'),
                                  ('datetime64', 'float64'),
                                  ('timedelta64', 'int64')]))
    return {'kinds': kinds, 'a': a, 'b': b,
            'v': draw(st.lists(st.integers(-99, 99), min_size=1, max_size=5)),
            'f': draw(st.sampled_from(['find_index', 'find_indexes',
                                       'safe_cast']))}


def run_mismatch(case):
    first, second = case['kinds']
    axis = core.TemporalAxis(np.arange(9).view(f'{first}[{case["a"]}]'))
    dates = np.array(case['v'], 'i8')
    if second.endswith('64') and second[0] in 'dt':
        dates = dates.view(f'{second}[{case["b"]}]')
    else:
        dates = dates.astype(second)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            result = getattr(axis, case['f'])(dates)
    except (RuntimeError, ValueError, TypeError):
        return f'{first} {second}'
    require(False, f'{case} accepted: {result}')


@st.composite
def interp_case(draw):
    a = draw(st.sampled_from(['D', 'h', 'm', 's', 'ms', 'us', 'ns']))
    b = draw(st.sampled_from(['D', 'h', 'm', 's', 'ms', 'us', 'ns']))
    n = draw(st.integers(2, 6))
    gaps = [draw(st.integers(1, 9))] * (n - 1) if draw(
        st.booleans()) else draw(st.lists(st.integers(1, 9), min_size=n - 1,
                                          max_size=n - 1))
    unit = max(ATTO[a], ATTO[b])
    scale = unit // ATTO[a]
    start = draw(st.integers(-3000, 20000))
    # Up to 50 years from the epoch.
    start += draw(st.sampled_from([0, 1, -1, 3])) * (min(
        50 * 365 * ATTO['D'] // unit,
        2**62 // max(scale, unit // ATTO[b])) // 3 - 30000)
    v = [start]
    for g in gaps:
        v.append(v[-1] + g * draw(st.just(6)))
    coords = draw(st.lists(st.integers(v[0], v[-1]), min_size=1, max_size=6))
    return {'a': a, 'b': b, 'scale': scale, 'unit': unit // ATTO[b],
            'v': v, 'c': coords, 'dim': draw(st.sampled_from([3, 4])),
            'desc': draw(st.booleans()),
            'kind': draw(st.sampled_from(['datetime64', 'timedelta64'])),
            'data': draw(st.lists(st.integers(-50, 50), min_size=n,
                                  max_size=n))}


def run_interp(case):
    """A field that only depends on time is interpolated along time."""
    kind = case['kind']
    v = np.array(case['v'], dtype='i8')
    data = np.array(case['data'], dtype='f8')
    if abs(int(v[0])) * case['scale'] > 2**62 or abs(
            int(v[-1])) * max(case['scale'], case['unit']) > 2**62 or abs(
                int(v[0])) * case['unit'] > 2**62:
        return None
    order = slice(None, None, -1) if case['desc'] else slice(None)
    axis = core.TemporalAxis(np.ascontiguousarray(
        (v * case['scale'])[order]).view(f'{kind}[{case["a"]}]'))
    x = core.Axis(np.array([0., 1.]))
    c = np.array(case['c'], dtype='i8')
    dates = (c * case['unit']).view(f'{kind}[{case["b"]}]')
    cast, _ = call(lambda: axis.safe_cast(dates))
    shape = (2, 2, len(v)) + ((2, ) if case['dim'] == 4 else ())
    values = np.empty(shape)
    values[:] = data[order].reshape(
        (1, 1, -1) + ((1, ) if case['dim'] == 4 else ()))
    half = np.full(len(c), 0.5)
    if case['dim'] == 3:
        grid = pyinterp.Grid3D(x, x, axis, values)
        result = pyinterp.trivariate(grid, half, half, cast, num_threads=1)
    else:
        grid = pyinterp.Grid4D(x, x, axis, x, values)
        result = pyinterp.quadrivariate(grid, half, half, cast, half,
                                        num_threads=1)
    expected = np.interp(c - v[0], v - v[0], data)
    err = np.abs(result - expected)
    require(np.all(err <= 1e-10),
            f'{case}: {result.tolist()} instead of {expected.tolist()}')
    return case['a'] if case['a'] != case['b'] else None


FACETS = [
    Facet('lookup', lookup_case(), run_lookup, 5000, 3,
          'Lookups and casts with dates in another resolution.'),
    Facet('mismatch', mismatch_case(), run_mismatch, 300, 1,
          'Dates, durations and numbers are not mixed.'),
    Facet('interp', interp_case(), run_interp, 2500, 2,
          'A field of time only is interpolated at the instants.'),
    large.facet('T02'),
]
