"""F03: gap filling keeps data and interpolates linearly."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import pyinterp.fill as fill
from vf import defaults, large
from vf.engine import Facet, require

PARTS = ['fill']
RULE = """Vectors of real numbers in both precisions, integers, dates and
durations, and matrices of both precisions and memory layouts, with gaps
anywhere (none, ends, everything but one value), NaN or another fill value, in
place or not. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a gap is filled. The oracle interpolates in exact
arithmetic, rows first, then columns for the matrices."""
ASSUMPTIONS = [
    'Integers and dates are rounded to one of the two nearest integers.',
    'Rows of a matrix are filled before its columns.',
]


def line(values, defined):
    """Exact filling of a line: values and whether they are defined."""
    known = [k for k, d in enumerate(defined) if d]
    if len(known) < 2:
        return list(values), list(defined)
    result = []
    first, last = known[0], known[-1]
    for k, v in enumerate(values):
        if not defined[k]:
            if first < k < last:
                a = max(i for i in known if i < k)
                b = min(i for i in known if i > k)
            else:
                a, b = first, last
            base = first if k < first else last if k > last else a
            v = values[base] + (values[b] - values[a]) * Fraction(
                k - base, b - a)
        result.append(v)
    return result, [True] * len(values)


@st.composite
def vector_case(draw):
    kind = draw(st.sampled_from(['f8', 'f4', 'i8', 'date', 'delta']))
    n = draw(st.integers(0, 12))
    return {'kind': kind, 'values': [draw(
        st.integers(-1000, 1000) if kind in ('f8', 'f4') else
        st.integers(-10**6, 10**6) if draw(st.booleans()) else
        st.integers(-5, 5)) for _ in range(n)],
        'scale': draw(st.sampled_from([0, 0, 1, 3])),
        'holes': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        'unit': draw(st.sampled_from(
            ['D', 'h', 's', 'ms', 'us', 'ns'])), 'sentinel': draw(st.booleans()),
        'place': draw(st.booleans()), 'finer': draw(st.booleans())}


def run_vector(case):
    kind, holes = case['kind'], case['holes']
    values = [v / 4 if kind[0] == 'f' else v for v in case['values']]
    if case['scale'] and kind not in ('f8', 'f4'):
        values = [v * 10**(3 * case['scale']) for v in values]
        if kind == 'delta' or kind == 'date':
            # Whatever the unit, dates far away in the calendar.
            values = [v % 10**7 for v in values]
    sentinel = case['sentinel']
    if kind in ('f8', 'f4'):
        mark = 9999.0 if sentinel else np.nan
        data = np.array(values, kind)
    elif kind == 'i8':
        mark = -10**15 - 1
        data = np.array(values, 'i8')
    else:
        code = 'M8' if kind == 'date' else 'm8'
        make = np.datetime64 if kind == 'date' else np.timedelta64
        data = np.array(values, 'i8').view(f"{code}[{case['unit']}]")
        mark = make(123456789, case['unit']) if sentinel else make('NaT')
    data[holes] = mark
    if kind in ('date', 'delta') and sentinel and case['finer']:
        # The same instant in another resolution, when it exists.
        other = mark.astype(f"{code}[{'s' if case['unit'] != 's' else 'ms'}]")
        if other.astype(mark.dtype) == mark:
            mark = other
    defined = [not h for h in holes]
    saved = data.copy()
    args = {} if kind[0] == 'f' and not sentinel else {'fill_value': mark}
    got = fill.vector(data, in_place=case['place'], **args)
    where = f'{case}'
    if case['place']:
        require(np.shares_memory(got, data) or not len(data),
                f'{where}: not in place')
    else:
        require(np.array_equal(data.view('i8' if data.itemsize == 8 else 'i4'),
                               saved.view('i8' if data.itemsize == 8
                                          else 'i4')),
                f'{where}: the vector is modified')
    require(got.dtype == saved.dtype and got.shape == saved.shape,
            f'{where}: {got.dtype} {got.shape}')
    exact, full = line([Fraction(v) for v in (
        np.array(values, kind).tolist() if kind[0] == 'f' else values)],
        defined)
    raw = got if kind[0] == 'f' else got.view('i8')
    for k, (v, d) in enumerate(zip(exact, full)):
        mine = raw[k].item()
        if defined[k]:
            require(mine == v, f'{where}: value {k} changed from {float(v)} '
                    f'to {mine}')
        elif not d:
            same = got[k] == mark or (got[k] != got[k] and mark != mark)
            require(same, f'{where}: value {k} filled with {got[k]} without '
                    'two defined values')
        elif kind[0] == 'f':
            top = max(abs(float(e)) for e in exact) + 1e-30
            require(abs(mine - float(v)) <= top * (
                1e-13 if kind == 'f8' else 1e-5),
                f'{where}: value {k} is {mine}, expected {float(v)}')
        else:
            require(abs(mine - v) < 1, f'{where}: value {k} is {mine}, '
                    f'expected {float(v)}')
    return kind if any(holes) and sum(defined) > 1 else None


@st.composite
def matrix_case(draw):
    nx, ny = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return {'nx': nx, 'ny': ny, 'seed': draw(st.integers(0, 9999)),
            'kind': draw(st.sampled_from(['f8', 'f4'])),
            'order': draw(st.sampled_from(['C', 'F', 'T', 'strided'])),
            'holes': draw(st.sampled_from([0, 0.2, 0.5, 0.8, 0.95, 1])),
            'sentinel': draw(st.booleans()), 'place': draw(st.booleans())}


def run_matrix(case):
    rng = np.random.default_rng(case['seed'])
    nx, ny, kind = case['nx'], case['ny'], case['kind']
    data = (rng.integers(-400, 400, size=(nx, ny)) / 4).astype(kind)
    holes = rng.random((nx, ny)) < case['holes']
    values = data.astype('f8')
    mark = -32768.0 if case['sentinel'] else np.nan
    data[holes] = mark
    if case['order'] == 'F':
        data = np.asfortranarray(data)
    elif case['order'] == 'T':
        data = np.ascontiguousarray(data.T).T
    elif case['order'] == 'strided':
        wide = np.full((2 * nx, 3 * ny), 7, kind)
        wide[::2, ::3] = data
        data = wide[::2, ::3]
    saved = data.copy()
    args = {'fill_value': mark} if case['sentinel'] else {}
    got = fill.matrix(data, in_place=case['place'], **args)
    if not case['place']:
        require(np.array_equal(data, saved, equal_nan=True),
                f'{case}: the matrix is modified')
    else:
        require(np.shares_memory(data, got), f'{case}: not in place')
    if case['order'] == 'strided' and case['place']:
        got = got.copy()
        wide[::2, ::3] = 7
        require((wide == 7).all(), f'{case}: values outside are modified')
    rows = [line([Fraction(v) for v in r], [not h for h in m])
            for r, m in zip(values.tolist(), holes.tolist())]
    columns = [line([r[0][j] for r in rows], [r[1][j] for r in rows])
               for j in range(ny)]
    top = max([abs(float(v)) for c, d in columns
               for v, f in zip(c, d) if f] + [1e-30])
    filled = 0
    for i in range(nx):
        for j in range(ny):
            mine = float(got[i, j])
            exact, full = columns[j][0][i], columns[j][1][i]
            if not holes[i, j]:
                require(mine == values[i, j], f'{case}: value {(i, j)} '
                        f'changed from {values[i, j]} to {mine}')
            elif not full:
                require(mine == mark or (np.isnan(mine) and np.isnan(mark)),
                        f'{case}: value {(i, j)} filled with {mine}')
            else:
                filled += 1
                require(abs(mine - float(exact)) <= top * (
                    1e-12 if kind == 'f8' else 1e-4),
                    f'{case}: value {(i, j)} is {mine}, expected '
                    f'{float(exact)}; {saved.tolist()}')
    return f'{kind} {case["order"]}' if filled else None


@st.composite
def refusal_case(draw):
    return {'kind': draw(st.sampled_from(
        ['i4', 'u1', 'i8', 'c16', '2d', '1d', '3d', 'list'])),
        'n': draw(st.integers(1, 4))}


def run_refusal(case):
    """Unsupported types and shapes are refused, and left as they were."""
    n, kind = case['n'], case['kind']
    try:
        if kind in ('i4', 'u1', 'c16'):
            fill.vector(np.ones(n, kind))
        elif kind == 'i8':
            fill.matrix(np.ones((n, n), 'i8'))
        elif kind == '2d':
            fill.vector(np.ones((n, n)))
        elif kind == 'list':
            fill.vector([1.0] * n)
        else:
            fill.matrix(np.ones((n, ) * int(kind[0])))
    except (ValueError, TypeError):
        return kind
    require(False, f'{case}: accepted')


FACETS = [
    Facet('vector', vector_case(), run_vector, 1500, 3, 'Vectors.'),
    Facet('matrix', matrix_case(), run_matrix, 1200, 3, 'Matrices.'),
    Facet('refusal', refusal_case(), run_refusal, 30, 1,
          'Unsupported types and shapes.'),
    defaults.facet('F03'),
    large.facet('F03'),
]
