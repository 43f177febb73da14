"""A03: an axis is the immutable sequence of its coordinates."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp.core as core
from vf import defaults, gen, large
from vf.engine import Facet, require

PARTS = ['axis']
RULE = """Axes of every kind (real, longitude, integer, dates and durations;
regular, irregular, single valued; both directions) with slices, indexes,
flips, copies, pickles and a second axis to compare with. Large inputs and
structures of up to tens of thousands of items. Non-trivial: an axis
of at least two values. The oracle is the NumPy array given to the
constructor."""
ASSUMPTIONS = ['Values of evenly spaced real axes are recomputed from the ends '
               'and the step: they are compared within 1e-12 relative.']


def build(case):
    kind, v = case['type'], case['v']
    if kind == 'real':
        return core.Axis(np.array(v, float)), np.array(v, float)
    if kind == 'angle':
        return core.Axis(np.array(v, float), is_circle=True), np.array(v)
    array = np.array(v, 'int64')
    if kind == 'int':
        return core.AxisInt64(array), array
    array = array.view(kind)
    return core.TemporalAxis(array), array


TYPES = ['int', 'datetime64[s]', 'datetime64[ns]', 'timedelta64[us]',
         'datetime64[D]', 'datetime64[M]', 'timedelta64[m]']


@st.composite
def axis_case(draw, types=('real', 'angle', 'whole')):
    kind = draw(st.sampled_from(types))
    if draw(st.integers(0, 9)) == 0:
        v = {'v': [draw(gen.number)], 'kind': 'one'}
    elif kind == 'angle':
        v = draw(gen.circle_values(min_size=2))
    else:
        v = draw(gen.axis_values())
    if kind == 'whole':
        kind = draw(st.sampled_from(TYPES))
        unit = draw(st.sampled_from([1, 1, 3, 1000]))
        n = len(v['v'])
        if v['kind'] == 'reg':
            step = draw(st.integers(1, 40)) * unit
            ints = [draw(st.integers(-5000, 5000)) + step * i
                    for i in range(n)] if n == 1 else None
            start = draw(st.integers(-5000, 5000)) * unit
            ints = [start + step * i for i in range(n)]
        else:
            ints, x = [], draw(st.integers(-5000, 5000)) * unit
            gaps = draw(gen.steps(n)) if n > 1 else [1]
            for g in gaps[:n]:
                ints.append(x)
                x += g * unit
        if v['v'][0] > v['v'][-1]:
            ints = ints[::-1]
        v = {'v': ints, 'kind': v['kind']}
    return {'type': kind, 'v': v['v'], 'kind': v['kind']}


index = st.one_of(st.none(), st.integers(-30, 30))


@st.composite
def sequence_case(draw):
    case = draw(axis_case())
    case['slices'] = draw(st.lists(
        st.tuples(index, index, st.sampled_from([None, 1, 2, 3, -1, -2])),
        min_size=1, max_size=4))
    case['ops'] = draw(st.lists(st.sampled_from(
        ['flip', 'inplace', 'copy', 'pickle']), max_size=5))
    return case


def close(a, b):
    if a.dtype.kind == 'f':
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-9)
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def observe(axis, ref, case):
    """Every accessor against the reference array."""
    what = f'{case["type"]} axis {ref.tolist()}'
    n = len(ref)
    require(len(axis) == n, f'{what}: length {len(axis)}')
    require(close(axis[:], ref), f'{what}: values {axis[:].tolist()}')
    own = axis[:]
    for start, stop, step in case['slices']:
        s = slice(start, stop, step)
        require((axis[s] == own[s]).all() and len(axis[s]) == len(own[s]),
                f'{what}[{s}] is {axis[s].tolist()}')
    for i in range(n):
        require(axis[i] == own[i], f'{what}[{i}] is {axis[i]}')
    for i in (n, n + 3):
        try:
            axis[i]
        except IndexError:
            continue
        require(False, f'{what}[{i}] is accepted')
    if ref.dtype.kind == 'f':
        require(axis.front() == ref[0], f'{what}: front {axis.front()!r}')
        require(abs(axis.back() - ref[-1]) <= 1e-12 * max(1, abs(ref[-1])),
                f'{what}: back {axis.back()!r}')
    else:
        require(axis.front() == ref[0], f'{what}: front {axis.front()!r}')
        require(axis.back() == ref[-1], f'{what}: back {axis.back()!r}')
    require(axis.min_value() == own.min(), f'{what}: min {axis.min_value()!r}')
    require(axis.max_value() == own.max(), f'{what}: max {axis.max_value()!r}')
    if n > 1:
        require(axis.is_ascending() == bool(ref[0] < ref[-1]),
                f'{what}: direction')
        regular = case['kind'] == 'reg' or n == 2
        if ref.dtype.kind != 'f':
            regular = len(set(np.diff(ref.view('int64')).tolist())) == 1
        require(axis.is_regular() == regular, f'{what}: regularity')
        if regular:
            inc, expected = axis.increment(), ref[1] - ref[0]
            if ref.dtype.kind == 'f':
                require(abs(inc - expected) <= 1e-9 * max(1, abs(expected)),
                        f'{what}: step {inc!r}')
            else:
                require(inc == expected, f'{what}: step {inc!r}')
        else:
            try:
                axis.increment()
            except RuntimeError:
                pass
            else:
                require(False, f'{what}: step of an irregular axis')
    if ref.dtype.kind in 'mM':
        require(axis.dtype() == ref.dtype, f'{what}: type {axis.dtype()}')
    require(isinstance(repr(axis), str) and repr(axis), 'no representation')


def run_sequence(case):
    axis, ref = build(case)
    observe(axis, ref, case)
    if case['type'] == 'angle' and len(ref) > 1:
        require(axis.is_circle, f'{ref.tolist()} is not a circle')
    for op in case['ops']:
        before = axis[:]
        flags = (getattr(axis, 'is_circle', None), axis.is_regular())
        if op == 'flip':
            other = axis.flip()
            require((axis[:] == before).all(), 'flip changed its operand')
            require(len(ref) == 1 or other != axis,
                    'an axis equals its reverse')
            back = other.flip()
            require(back == axis, f'{before.tolist()} flipped twice differs')
            axis, ref = other, ref[::-1]
        elif op == 'inplace':
            other = axis.flip(inplace=True)
            ref = ref[::-1]
            require(other == axis and (other[:] == axis[:]).all(),
                    'flip in place did not return the axis')
            axis = other
        else:
            other = copy.copy(
                axis) if op == 'copy' else pickle.loads(pickle.dumps(axis))
            require(other == axis and not other != axis,
                    f'{op} of {before.tolist()} is not equal')
            require((other[:] == axis[:]).all(), f'{op} changed the values')
            require(type(other) is type(axis), f'{op} changed the type')
            other.flip(inplace=True)
            require((axis[:] == before).all(), f'{op} is not independent')
            other.flip(inplace=True)
            axis = other
        observe(axis, ref, case)
        require(flags == (getattr(axis, 'is_circle', None),
                          axis.is_regular()), f'{op} changed the frame')
    return [case['type'], case['kind']] if len(ref) > 1 else None


@st.composite
def equality_case(draw):
    case = draw(axis_case())
    n = len(case['v'])
    how = draw(st.sampled_from(['same', 'move', 'near', 'drop', 'other',
                                'frame']))
    i = draw(st.integers(0, n - 1))
    return {**case, 'how': how, 'i': i, 'other': draw(axis_case())}


def run_equality(case):
    a, ref = build(case)
    how = case['how']
    if how == 'same':
        b, _ = build(case)
        expected = True
    elif how == 'near':
        # One node differs a little, in front of the others.
        if case['type'] != 'real' or len(ref) < 2:
            return None
        v = np.array(ref, dtype=float)
        if case['i'] % 2:
            v = np.append(v, v[-1] + (v[1] - v[0]) * 2.0**40)
        w = v.copy()
        k = case['i'] % (len(v) - 1)
        w[k] += (v[k + 1] - v[k]) * 2.0**-(2 + 4 * (case['i'] % 4))
        a, b = core.Axis(v), core.Axis(w)
        # The steps of a regular axis may differ by a rounding.
        expected = bool(np.array_equal(a[:], b[:]))
        if expected:
            return None
    elif how == 'frame':
        if case['type'] != 'angle' or len(ref) == 1:
            return None
        b, expected = core.Axis(ref), False
    elif how == 'other':
        b, other = build(case['other'])
        if type(a) is not type(b):
            try:
                require(a != b and not a == b, f'{a!r} equals {b!r}')
            except TypeError:
                pass
            return None
        if ref.dtype != other.dtype:
            return None
        if ref.shape == other.shape and np.allclose(
                ref.astype(float), other.astype(float)):
            return None
        expected = False
    else:
        v = list(case['v'])
        if how == 'drop':
            if len(v) < 3:
                return None
            del v[case['i']]
        else:
            sign = 1 if v[-1] > v[0] else -1
            v[-1] += sign * (1 if case['type'] not in ('real', 'angle') else
                             0.25)
            if case['type'] == 'angle':
                return None
        b, _ = build({**case, 'v': v})
        expected = False
    require((a == b) == expected and (a != b) != expected,
            f'{case["type"]}: {a[:].tolist()} == {b[:].tolist()} gives '
            f'{a == b}')
    return how


FACETS = [
    Facet('sequence', sequence_case(), run_sequence, 1500, 4,
          'Accessors, slices, flips, copies and pickles.'),
    Facet('equality', equality_case(), run_equality, 2500, 2,
          'Equal exactly when the coordinates and the frame are equal.'),
    defaults.facet('A03'),
    large.facet('A03'),
]
