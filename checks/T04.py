"""T04: period lists are unions of their periods."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pyinterp.period import Period, PeriodList
from vf import defaults, large
from vf.engine import Facet, require

PARTS = ['period']
RULE = """Lists of up to eight periods (disjoint, adjacent, nested, equal, of one
instant) given in any order then sorted, and histories of merges, filters,
intersections, selections, joins, sorts and pickles mirrored on a reference
made of Python lists of pairs; after every step the list is queried with sorted
dates. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two periods and one operation that changed the
list. The oracle enumerates the periods."""
ASSUMPTIONS = [
    'Periods are well formed and lists are sorted before operations which '
    'require chronological order; dates are in chronological order.',
    'The gap allowed when joining is compared with the difference between the '
    'first instant of a period and the last one of the previous.',
]
RATIO = {('s', 'ms'): 1000, ('ms', 'us'): 1000, ('us', 'ns'): 1000,
         ('D', 'h'): 24, ('m', 's'): 60, ('h', 'm'): 60}
FINER = {a: (b, k) for (a, b), k in RATIO.items()}


@st.composite
def periods(draw, max_size=8, size=60):
    result = []
    for _ in range(draw(st.integers(0, max_size))):
        begin = draw(st.integers(0, size))
        result.append((begin, begin + draw(
            st.one_of(st.integers(0, 8), st.sampled_from([0, 1, 30])))))
    return result


@st.composite
def history_case(draw):
    unit = draw(st.sampled_from(sorted(FINER)))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(
            ['merge', 'merge', 'join', 'join', 'filter', 'intersection',
             'within', 'pickle', 'sort', 'copy', 'self']))
        item = {'op': op}
        if op == 'merge':
            item['with'] = sorted(draw(periods()))
        elif op == 'join':
            item['eps'] = draw(st.sampled_from([None, 0, 1, 2, 3, 10]))
            item['inplace'] = draw(st.booleans())
        elif op == 'filter':
            item['min'] = draw(st.integers(0, 9))
        elif op in ('intersection', 'within'):
            begin = draw(st.integers(-2, 62))
            item['p'] = (begin, begin + draw(st.integers(0, 60)))
        item['fine'] = draw(st.sampled_from([False, False, True]))
        ops.append(item)
    return {'unit': unit, 'origin': draw(st.sampled_from([0, -20, 5000])),
            'v': draw(periods()), 'ops': ops,
            'dates': sorted(draw(st.lists(st.integers(-3, 100), min_size=0,
                                          max_size=12)))}


def array_of(pairs, unit, origin, fine=False):
    array = np.array([[p[0] for p in pairs], [p[1] for p in pairs]],
                     dtype='i8').reshape(2, -1) + origin
    if fine:
        unit, ratio = FINER[unit]
        array = array * ratio
    return array.view(f'M8[{unit}]')


def pairs_of(item, unit, origin):
    array = item.periods
    require(array.dtype['begin'] == np.dtype(f'M8[{unit}]'),
            f'resolution {array.dtype}')
    return [(int(a) - origin, int(b) - origin)
            for a, b in zip(array['begin'].astype('i8'),
                            array['last'].astype('i8'))]


def union(pairs):
    result = set()
    for a, b in pairs:
        result.update(range(a, b + 1))
    return result


def run_history(case):
    unit, origin = case['unit'], case['origin']
    model = list(case['v'])
    item = PeriodList(array_of(model, unit, origin))
    require(pairs_of(item, unit, origin) == [tuple(p) for p in model],
            f'{case}: periods')
    require(item.sort() is item, 'sort')
    model = sorted(model, key=lambda p: p[0])
    changed = 0

    def period(pair, fine):
        u, k = FINER[unit] if fine else (unit, 1)
        return Period(np.datetime64((pair[0] + origin) * k, u),
                      np.datetime64((pair[1] + origin) * k, u), True)

    def verify(where):
        nonlocal model
        got = pairs_of(item, unit, origin)
        require(len(item) == len(got) and
                [p[0] for p in got] == sorted(p[0] for p in got),
                f'{where}: {got}')
        require(sorted(got) == sorted(tuple(p) for p in model),
                f'{where}: {got} instead of {model}')
        model = got
        content = union(got)
        disjoint = all(a[1] < b[0] for a, b in zip(got, got[1:]))
        require(item.are_periods_sorted_and_disjointed() == disjoint,
                f'{where}: {got} sorted and disjointed is not {disjoint}')
        dates = case['dates']
        array = np.array([d + origin for d in dates], 'i8').view(
            f'M8[{unit}]')
        belong = item.belong_to_a_period(array).tolist()
        require(belong == [d in content for d in dates],
                f'{where}: {got}, {dates} belong: {belong}')
        cross = item.cross_a_period(array).tolist()
        expected = [any(a <= dates[-1] and b >= d for a, b in got)
                    for d in dates]
        require(cross == expected, f'{where}: {got}, {dates} cross: {cross}')
        for d in dates[:4]:
            for eps in (None, 0, 1, 3):
                close = item.is_it_close(
                    np.datetime64(d + origin, unit),
                    None if eps is None else np.timedelta64(eps, unit))
                require(close == any(a - (eps or 0) <= d <= b + (eps or 0)
                                     for a, b in got),
                        f'{where}: {got}, {d} close ({eps}): {close}')

    verify(f'{case} (initial)')
    for i, op in enumerate(case['ops']):
        name, fine = op['op'], op['fine']
        where = f'{case} (step {i}: {name})'
        before = list(model)
        if name == 'merge':
            other = PeriodList(array_of(op['with'], unit, origin, fine))
            item = item.merge(other)
            got = pairs_of(item, unit, origin)
            require(union(got) == union(model) | union(op['with']),
                    f'{where}: {got}')
            # Only periods with a common instant are merged.
            model = []
            for a, b in sorted(before + [tuple(p) for p in op['with']],
                               key=lambda p: p[0]):
                if model and a <= model[-1][1]:
                    model[-1] = (model[-1][0], max(b, model[-1][1]))
                else:
                    model.append((a, b))
        elif name == 'self':
            item = item.merge(PeriodList(array_of(model, unit, origin)))
            model = []
            for a, b in before:
                if model and a <= model[-1][1]:
                    model[-1] = (model[-1][0], max(b, model[-1][1]))
                else:
                    model.append((a, b))
        elif name == 'join':
            eps = op['eps']
            gap = None if eps is None else np.timedelta64(eps, unit)
            if gap is not None and fine:
                gap = gap.astype(f'm8[{FINER[unit][0]}]')
            old = item
            item = item.join_adjacent_periods(gap, inplace=op['inplace'])
            require((item is old) == op['inplace'], f'{where}: in place')
            if not op['inplace']:
                require(pairs_of(old, unit, origin) == before,
                        f'{where}: modified')
            model = []
            for a, b in before:
                if model and a - model[-1][1] <= (eps or 0):
                    model[-1] = (model[-1][0], max(b, model[-1][1]))
                else:
                    model.append((a, b))
        elif name == 'filter':
            delta = np.timedelta64(op['min'], unit)
            if fine:
                delta = delta.astype(f'm8[{FINER[unit][0]}]')
            item = item.filter(delta)
            model = [p for p in model if p[1] + 1 - p[0] >= op['min']]
        elif name == 'intersection':
            lo, hi = op['p']
            item = item.intersection(period(op['p'], fine))
            model = [(max(a, lo), min(b, hi)) for a, b in model
                     if max(a, lo) <= min(b, hi)]
        elif name == 'within':
            lo, hi = op['p']
            item = item.within(period(op['p'], fine))
            model = [p for p in model if lo <= p[0] and p[1] <= hi]
        elif name == 'pickle':
            item = pickle.loads(pickle.dumps(item))
        elif name == 'copy':
            item = copy.deepcopy(item)
        elif name == 'sort':
            item.sort()
        changed += sorted(before) != sorted(model)
        verify(where)
    return [op['op'] for op in case['ops']] if (
        changed and len(case['v']) > 1) else None


@st.composite
def unsorted_case(draw):
    return {'unit': 's', 'v': draw(periods()),
            'd': draw(st.integers(-5, 100)),
            'eps': draw(st.integers(0, 5)), 'dtype': draw(st.sampled_from(
                ['M8[s]', 'i8', 'f8', 'm8[s]', 'M8[s]1d']))}


def run_unsorted(case):
    """Queries that do not need an order; types that are refused."""
    v = case['v']
    array = array_of(v, 's', 0)
    if case['dtype'] != 'M8[s]':
        array = array.astype('i8')
        if case['dtype'] == 'M8[s]1d':
            array = array.ravel().view('M8[s]')
        else:
            array = array.astype(case['dtype'])
        try:
            PeriodList(array)
        except (TypeError, ValueError):
            return 'refused'
        require(False, f'{case} accepted')
    item = PeriodList(array)
    require(pairs_of(item, 's', 0) == [tuple(p) for p in v], f'{case}')
    close = item.is_it_close(np.datetime64(case['d'], 's'),
                             np.timedelta64(case['eps'], 's'))
    require(close == any(a - case['eps'] <= case['d'] <= b + case['eps']
                         for a, b in v), f'{case}: close {close}')
    ordered = all(a[1] < b[0] for a, b in zip(v, v[1:]))
    require(item.are_periods_sorted_and_disjointed() == ordered,
            f'{case}: sorted {not ordered}')
    if v:
        middle = Period(np.datetime64(20, 's'), np.datetime64(40, 's'))
        got = pairs_of(item.intersection(middle), 's', 0)
        require(got == [(max(a, 20), min(b, 40)) for a, b in v
                        if max(a, 20) <= min(b, 40)], f'{case}: {got}')
    return 'unordered' if len(v) > 1 and not ordered else None


FACETS = [
    Facet('history', history_case(), run_history, 4000, 4,
          'Histories of operations compared with lists of pairs.'),
    Facet('unordered', unsorted_case(), run_unsorted, 2500, 1,
          'Queries on lists in any order, and refusals.'),
    defaults.facet('T04'),
    large.facet('T04'),
]
