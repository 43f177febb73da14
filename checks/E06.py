"""E06: normalisation of longitudes."""
from fractions import Fraction

import hypothesis.strategies as st
import numpy as np
from pyinterp import core, geodetic

from vf import defaults, large
from vf.engine import Facet, require

PARTS = ['geodetic']
RULE = """Vectors of 0 to 12 longitudes: any finite double up to 1e15 in size,
multiples of 90 and 360 degrees and of the origin plus or minus zero to three
units in the last place, subnormals, signed zeros, NaN and infinities; origins
of any size up to 1e6, integral or not; arrays writeable or not, strided,
reversed, of integers or of single precision; both interfaces. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at
least one value that has to be moved."""
ASSUMPTIONS = [
    'the whole number of turns is exact up to two units in the last place of '
    'the largest of the input, the origin and 360 degrees',
    'in an interval of one turn the bounds are compared without rounding',
]
TURN = Fraction(360)
finite = st.one_of(
    st.floats(-1e15, 1e15), st.floats(-1000, 1000), st.floats(-1e-10, 1e-10),
    st.integers(-40, 40).map(lambda k: k * 90.0),
    st.sampled_from([0.0, -0.0, 5e-324, -5e-324, -1e-17, -1e-15, 1e-300, 1e15,
                     -1e15, 0.1 + 0.2]))
origins = st.one_of(
    st.sampled_from([-180.0, -180.0, 0.0, -360.0, 180.0, 90.0, -0.1, 1 / 3,
                     -180.00000000000003, 1e-300]),
    st.floats(-720, 720), st.floats(-1e6, 1e6))


@st.composite
def vectors(draw):
    origin = draw(origins)
    item = st.one_of(
        finite, st.tuples(st.integers(-5, 5), st.integers(-3, 3)).map(list),
        st.sampled_from(['nan', 'inf', '-inf']))
    return {'origin': origin, 'lon': draw(st.lists(item, max_size=12)),
            'form': draw(st.sampled_from(
                ['plain', 'plain', 'readonly', 'strided', 'reversed', 'int',
                 'single', 'default']))}


def value(item, origin):
    if isinstance(item, list):
        # Close to a bound of a turn.
        turns, steps = item
        x = np.float64(origin + 360.0 * turns)
        for _ in range(abs(steps)):
            x = np.nextafter(x, np.inf * steps)
        return float(x)
    return float(item)


def verify(got, x, origin, where):
    if not np.isfinite(x):
        require(np.isnan(got), f'{where}: {x} gives {got}')
        return False
    require(np.isfinite(got), f'{where}: {x} gives {got}')
    low = Fraction(origin)
    require(low <= Fraction(float(got)) < low + TURN, f'{where}: {x!r} gives '
            f'{float(got)!r}, out of [{origin}, {origin} + 360[')
    rest = (Fraction(float(got)) - Fraction(float(x))) % TURN
    gap = min(rest, TURN - rest)
    limit = 2 * np.spacing(max(abs(x), abs(origin) + 360, 360.0))
    require(gap <= Fraction(float(limit)), f'{where}: {x!r} gives '
            f'{float(got)!r}, {float(gap)} degrees from the same meridian')
    return not low <= Fraction(float(x)) < low + TURN


def run_vector(case):
    origin, form = case['origin'], case['form']
    if form == 'default':
        origin = -180.0
    x = np.array([value(v, origin) for v in case['lon']], 'f8')
    if form == 'int':
        x = x[np.abs(x) < 1e15].astype('i8')
    elif form == 'single':
        x = x.astype('f4')
    elif form == 'strided':
        if len(x) < 2:
            return None
        x = np.repeat(x, 2)[::2]
    elif form == 'reversed':
        if len(x) < 2:
            return None
        x = x[::-1]
    elif form == 'readonly':
        x.flags.writeable = False
    before = x.copy()
    args = (x,) if form == 'default' else (x, origin)
    got = geodetic.normalize_longitudes(*args)
    where = f'{case}'
    require(isinstance(got, np.ndarray) and got.shape == before.shape,
            f'{where}: {got!r}')
    moved = False
    for u, v in zip(got, before):
        moved |= verify(u, float(v), origin, where)
    in_place = form in ('plain', 'default')
    if in_place:
        require(got is x, f'{where}: not in place')
    else:
        require(np.array_equal(x, before, equal_nan=True),
                f'{where}: the argument was modified')
    # Once more: nothing moves any longer.
    again = got.copy()
    for u, v in zip(geodetic.normalize_longitudes(again, origin), got):
        verify(u, float(v), origin, where + ' twice')
    # The same without copy.
    plain = before.astype('f8')
    require(core.geodetic.normalize_longitudes(plain, origin) is None,
            f'{where}: a contiguous array was copied')
    require(np.array_equal(plain, got, equal_nan=True), f'{where}: {plain} in '
            f'place, {got} otherwise')
    return form if moved else None


FACETS = [
    Facet('vectors', vectors, run_vector, quick=2500, shards=8,
          thorough=300000, doc='vectors of longitudes'),
    defaults.facet('E06'),
    large.facet('E06'),
]
