"""T03: periods behave as sets of instants."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp.core as core
from pyinterp.period import Period
from vf import defaults
from vf.engine import Facet, require

PARTS = ['period']
RULE = """Pairs of closed or half-open periods of any resolution whose end
points are drawn from a small window (so that they are often equal, nested,
adjacent or overlapping), instants of the window and sequences of intersections
and merges. Non-trivial: the two periods touch, overlap or follow each other
without a gap. The oracle enumerates the instants of the periods as Python
sets."""
ASSUMPTIONS = [
    'The existing tests freeze that an ill-formed period (end before begin) '
    'may be reported as contained in or intersecting another one: only its '
    'emptiness is asserted.',
    'Operations between periods of two resolutions convert the second one '
    'to the resolution of the first as NumPy does.',
]
UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']


def date(value, unit):
    return np.datetime64(int(value), unit)


@st.composite
def relation_case(draw):
    unit = draw(st.sampled_from(UNITS))
    origin = draw(st.sampled_from([0, 0, -7, 600, -10**4, 17000]))
    if unit in ('ns', 'us', 'ms', 's'):
        origin *= draw(st.sampled_from([1, 10**6, 10**9]))
    ends = [draw(st.integers(0, 10)) for _ in range(4)]
    if draw(st.integers(0, 3)):
        ends = [min(ends[:2]), max(ends[:2]), min(ends[2:]), max(ends[2:])]
    return {'unit': unit, 'origin': origin, 'ends': ends,
            'within': [draw(st.booleans()), draw(st.booleans())]}


def members(begin, end, within):
    """Instants of a period (relative to the origin)."""
    return set(range(begin, end + 1 if within else end))


def span(items):
    return min(items), max(items)


def run_relation(case):
    unit, origin = case['unit'], case['origin']
    a0, a1, b0, b1 = case['ends']
    wa, wb = case['within']

    def make(begin, end, within):
        return Period(date(origin + begin, unit), date(origin + end, unit),
                      within)

    def content(p):
        """Set of instants of a period, relative to the origin."""
        lo = int(p.begin.astype('i8')) - origin
        hi = int(p.last.astype('i8')) - origin
        require(p.begin.dtype == np.dtype(f'M8[{unit}]'), 'resolution')
        require(hi - lo < 50, f'{case}: period {p!r}')
        return set(range(lo, hi + 1))

    a, b = make(a0, a1, wa), make(b0, b1, wb)
    sa, sb = members(a0, a1, wa), members(b0, b1, wb)
    where = f'{a!r} {b!r}'
    for p, s, (begin, end, within) in ((a, sa, (a0, a1, wa)),
                                       (b, sb, (b0, b1, wb))):
        require(p.is_null() == (not s), f'{p!r}: null {p.is_null()}')
        require(content(p) == s, f'{p!r}: {case}')
        length = end - begin + within
        require(p.duration() == np.timedelta64(length, unit) and
                p.duration().dtype == np.dtype(f'm8[{unit}]'),
                f'{p!r}: duration {p.duration()!r}')
        require(p.begin == date(origin + begin, unit), f'{p!r}: begin')
        require(p.end() == date(origin + begin + length, unit),
                f'{p!r}: end {p.end()}')
        require(p.last == p.end() - np.timedelta64(1, unit), f'{p!r}: last')
        if length >= 0:
            require(len(p) == length, f'{p!r}: {len(p)} != {length}')
        for twin in (pickle.loads(pickle.dumps(p)), copy.copy(p),
                     copy.deepcopy(p)):
            require(twin == p and not twin != p and
                    twin.resolution == p.resolution, f'{p!r}: {twin!r}')
        base = p.as_base_class()
        require(base.begin == origin + begin and
                base.end() == origin + begin + length, f'{p!r}: base')
        for t in range(-2, 13):
            instant = date(origin + t, unit)
            require(p.contains(instant) == (t in s),
                    f'{p!r} contains {instant}: {p.contains(instant)}')
            require(p.is_before(instant) == (bool(s) and t > max(s)),
                    f'{p!r} before {instant}: {p.is_before(instant)}')
            require(p.is_after(instant) == (bool(s) and t < min(s)),
                    f'{p!r} after {instant}: {p.is_after(instant)}')
    require((a == b) == ((a0, a1 + wa) == (b0, b1 + wb)) and
            (a != b) != (a == b), f'{where}: equality')
    require((a < b) == (a0 < b0), f'{where}: order')
    require((a > b) == (a0 > b0), f'{where}: order')
    both = a.intersection(b)
    require((content(both) if sa & sb else set()) == (sa & sb) and
            both.is_null() == (not sa & sb),
            f'{where}: intersection {both!r}')
    if not sa or not sb:
        return None
    require(a.contains(b) == (sb <= sa), f'{where}: contains')
    require(b.contains(a) == (sa <= sb), f'{where}: contained')
    require(a.intersects(b) == bool(sa & sb), f'{where}: intersects')
    require(b.intersects(a) == bool(sa & sb), f'{where}: intersects (swapped)')
    adjacent = max(sa) + 1 == min(sb) or max(sb) + 1 == min(sa)
    require(a.is_adjacent(b) == adjacent, f'{where}: adjacent')
    require(b.is_adjacent(a) == adjacent, f'{where}: adjacent (swapped)')
    union = a.merge(b)
    if sa & sb:
        require(content(union) == sa | sb, f'{where}: merge {union!r}')
        require(b.merge(a) == union, f'{where}: merge (swapped)')
    else:
        require(union.is_null(), f'{where}: merge {union!r}')
    require(b.intersection(a).is_null() == both.is_null() and
            (both.is_null() or b.intersection(a) == both),
            f'{where}: intersection (swapped)')
    ba, bb = a.as_base_class(), b.as_base_class()
    require(ba.contains(bb) == a.contains(b) and
            ba.intersects(bb) == a.intersects(b) and
            (ba == bb) == (a == b) and
            ba.is_adjacent(bb) == a.is_adjacent(b), f'{where}: base class')
    if adjacent:
        return 'adjacent'
    if sa & sb:
        return 'nested' if sa <= sb or sb <= sa else 'overlap'
    return None


@st.composite
def mixed_case(draw):
    i = draw(st.integers(0, len(UNITS) - 1))
    j = draw(st.integers(max(0, i - 2), min(len(UNITS) - 1, i + 2)))
    u1, u2 = UNITS[i], UNITS[j]
    step = {'Y': 1, 'M': 12, 'W': 4, 'D': 30, 'h': 24, 'm': 60,
            's': 60}.get(u2 if j > i else u1, 1000)
    f1 = step if j < i else 1
    f2 = step if j > i else 1
    if abs(i - j) == 2:
        f1, f2 = f1 * f1, f2 * f2
    return {'u': [u1, u2],
            'a': [draw(st.integers(0, 9)) * f1 + draw(st.integers(-1, 1)),
                  draw(st.integers(0, 9)) * f1 + draw(st.integers(-1, 1))],
            'b': [draw(st.integers(0, 9)) * f2 + draw(st.integers(-1, 1)),
                  draw(st.integers(0, 9)) * f2 + draw(st.integers(-1, 1))],
            't': draw(st.integers(-2, 12)) * f2 + draw(st.integers(-1, 1)),
            'within': draw(st.booleans())}


def run_mixed(case):
    u1, u2 = case['u']
    a = Period(date(min(case['a']), u1), date(max(case['a']), u1), True)
    b = Period(date(min(case['b']), u2), date(max(case['b']), u2), True)
    lo = date(min(case['b']), u2).astype(f'M8[{u1}]')
    hi = date(max(case['b']), u2).astype(f'M8[{u1}]')
    t = date(case['t'], u2)
    ti = t.astype(f'M8[{u1}]')
    where = f'{a!r} {b!r}'
    same = b.as_resolution(u1)
    require(same.begin == lo and same.last == hi and same.resolution == u1,
            f'{where}: converted to {same!r}')
    require(a.contains(b) == bool(a.begin <= lo and hi <= a.last),
            f'{where}: contains')
    require(a.intersects(b) == bool(lo <= a.last and hi >= a.begin),
            f'{where}: intersects')
    one = np.timedelta64(1, u1)
    require(a.is_adjacent(b) == bool(a.last + one == lo or
                                     hi + one == a.begin),
            f'{where}: adjacent')
    both = a.intersection(b)
    if lo <= a.last and hi >= a.begin:
        require(both.begin == max(lo, a.begin) and
                both.last == min(hi, a.last) and both.resolution == u1,
                f'{where}: intersection {both!r}')
        union = a.merge(b)
        require(union.begin == min(lo, a.begin) and
                union.last == max(hi, a.last) and union.resolution == u1,
                f'{where}: merge {union!r}')
    else:
        require(both.is_null() and a.merge(b).is_null(), f'{where}: disjoint')
    require(a.contains(t) == bool(a.begin <= ti <= a.last),
            f'{a!r} contains {t}')
    require(a.is_before(t) == bool(a.last < ti), f'{a!r} before {t}')
    require(a.is_after(t) == bool(ti < a.begin), f'{a!r} after {t}')
    if u1 != u2:
        require(a != b and not a == b, f'{where}: equal')
    # Bounds of two resolutions: the finest one is used.
    first, last = date(min(case['a']), u1), date(max(case['b']), u2)
    c = Period(first, last, case['within'])
    fine = max(u1, u2, key=UNITS.index)
    end = last.astype(f'M8[{fine}]')
    require(c.resolution == fine and c.begin == first.astype(f'M8[{fine}]') and
            c.last == (end if case['within'] else
                       end - np.timedelta64(1, fine)),
            f'{first!r} {last!r}: {c!r}')
    return f'{u1} {u2}' if u1 != u2 else None


FACETS = [
    Facet('relations', relation_case(), run_relation, 4000, 3,
          'Every relation of two periods compared with sets of instants.'),
    Facet('resolutions', mixed_case(), run_mixed, 4000, 1,
          'Periods and instants of two resolutions.'),
    defaults.facet('T03'),
]
