"""T01: calendar fields of dates."""
import datetime

import numpy as np
from hypothesis import strategies as st

from pyinterp.core import dateutils
from vf import large
from vf.engine import Facet, require

PARTS = ['dateutils']
RULE = """Arrays of dates of every supported resolution, strided or not, made of
a day (year boundaries, leap days, century years, around 1970, anywhere within
the range of the resolution up to one million years), a second of the day and a
fraction. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a date before 1970 or on a year boundary. The oracle is
NumPy's calendar for the fields and Python's for ISO weeks and week days, moved
by whole 400-year cycles when out of the range of Python."""
ASSUMPTIONS = [
    'Years within one million of 1970 (the fields are 32-bit integers).',
    'The elapsed time since January is only compared when it is representable '
    'in the resolution (not always the case below the nanosecond).',
    'Text notation is compared for years 1000 and later.',
]
SCALE = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9, 'ps': 10**12,
         'fs': 10**15, 'as': 10**18}
CYCLE = 146097


def days_of(year, month=1, day=1):
    cycles, rest = divmod(year - 2000, 400)
    return (datetime.date(2000 + rest, month, day).toordinal() -
            719163) + cycles * CYCLE


@st.composite
def one_date(draw, res):
    scale = SCALE[res]
    limit = min(2**63 // scale // 86400 - 1, 365_000_000)
    if limit < 1:
        span = 2**63 - 1
        return draw(st.one_of(st.integers(-span, span),
                              st.integers(-5, 5)))
    years = limit // 366
    how = draw(st.integers(0, 3))
    if how == 0 or years < 2:
        day = draw(st.integers(-limit, limit))
    elif how == 1:
        day = draw(st.integers(-min(limit, 800), min(limit, 800)))
    else:
        year = draw(st.one_of(
            st.integers(max(-years, -400) + 1970, min(years, 700) + 1970),
            st.integers(1970 - years, 1970 + years),
            st.integers(max(-5, -years // 100),
                        min(5, years // 100)).map(lambda k: 2000 + 100 * k)))
        if how == 2:
            day = days_of(year) + draw(st.integers(-8, 8))
        else:
            day = days_of(year, draw(st.integers(1, 12))) + draw(
                st.integers(-2, 31))
        day = max(-limit, min(limit, day))
    second = draw(st.one_of(st.sampled_from([0, 1, 86399, 43200, 3599, 3600]),
                            st.integers(0, 86399)))
    frac = draw(st.one_of(st.sampled_from([0, scale - 1, scale // 2]),
                          st.integers(0, scale - 1))) if scale > 1 else 0
    return (day * 86400 + second) * scale + frac


@st.composite
def dates_case(draw):
    res = draw(st.sampled_from(list(SCALE)))
    return {'res': res,
            'v': draw(st.lists(one_date(res), min_size=1, max_size=8)),
            'stride': draw(st.sampled_from([1, 1, -1, 2]))}


def array_of(case):
    v = np.array(case['v'], 'int64')
    stride = case['stride']
    if stride == 2:
        base = np.zeros(2 * len(v), 'int64')
        base[::2] = v
        v = base[::2]
    elif stride == -1:
        v = v[::-1].copy()[::-1]
    return v.view(f'M8[{case["res"]}]')


def run_fields(case):
    array = array_of(case)
    scale = SCALE[case['res']]
    date, time = dateutils.date(array), dateutils.time(array)
    iso, week = dateutils.isocalendar(array), dateutils.weekday(array)
    since = dateutils.timedelta_since_january(array)
    require(since.dtype == np.dtype(f'm8[{case["res"]}]'), 'type of since')
    labels = {case['res']}
    for i, v in enumerate(case['v']):
        where = f'{v} [{case["res"]}]'
        total, frac = divmod(v, scale)
        day, second = divmod(total, 86400)
        month = int(np.int64(day).view('M8[D]').astype('M8[M]').astype('i8'))
        year = 1970 + month // 12
        first = int(np.datetime64(month, 'M').astype('M8[D]').astype('i8'))
        expected = (year, month % 12 + 1, day - first + 1)
        require(tuple(date[i]) == expected, f'{where}: {date[i]}, {expected}')
        expected = (second // 3600, second // 60 % 60, second % 60)
        require(tuple(time[i]) == expected, f'{where}: {time[i]}, {expected}')
        cycles, rest = divmod(day + 719163 - CYCLE * 3, CYCLE)
        y, w, d = datetime.date.fromordinal(rest + CYCLE * 3).isocalendar()
        expected = (y + cycles * 400, w, d)
        require(tuple(iso[i]) == expected, f'{where}: iso {iso[i]}, {expected}')
        require(week[i] == d % 7, f'{where}: week day {week[i]}')
        january = int(np.datetime64(year - 1970, 'Y').astype('M8[D]').astype(
            'i8'))
        expected = v - january * 86400 * scale
        if expected < 2**63:
            require(int(since[i].astype('i8')) == expected,
                    f'{where}: since January {since[i]}, {expected}')
        if v < 0:
            labels.add('before 1970')
        if day - january in (0, 364, 365, 59):
            labels.add('boundary')
    return sorted(labels) if len(labels) > 1 else None


def run_native(case):
    array = array_of(case)
    scale = SCALE[case['res']]
    low = datetime.datetime.min
    expected = []
    for v in case['v']:
        total, frac = divmod(v, scale)
        day, second = divmod(total, 86400)
        micro = frac * 10**6 // scale
        try:
            expected.append(low + datetime.timedelta(
                days=day + 719162, seconds=second, microseconds=micro))
        except OverflowError:
            expected.append(None)
    if None in expected:
        try:
            result = dateutils.datetime(array)
        except Exception:  # noqa: BLE001
            return 'refused'
        for a, b in zip(result, expected):
            require(a == b or b is None and a is None,
                    f'{case}: {a} instead of {b}')
        return 'refused'
    result = dateutils.datetime(array)
    require(result.dtype == np.dtype(object) and list(result) == expected,
            f'{case}: {list(result)} instead of {expected}')
    return case['res']


@st.composite
def text_case(draw):
    res = draw(st.sampled_from(list(SCALE) + ['Y', 'M', 'W', 'D', 'h', 'm']))
    if res in SCALE:
        return {'res': res, 'v': draw(one_date(res))}
    years = draw(st.integers(-970, 5000))
    num = {'Y': 1, 'M': 12, 'W': 52.1775, 'D': 365.2425, 'h': 24 * 365.2425,
           'm': 1440 * 365.2425}[res]
    return {'res': res, 'v': int(years * num) + draw(st.integers(-99, 99))}


def run_text(case):
    dtype = f'datetime64[{case["res"]}]'
    expected = str(np.int64(case['v']).view(dtype))
    if expected.startswith('-') or expected[4:5] not in ('', '-') or (
            expected < '1000'):
        return None
    text = dateutils.datetime64_to_str(case['v'], dtype)
    require(text == expected, f'{case}: {text} instead of {expected}')
    return case['res']


@st.composite
def refused_case(draw):
    return {'f': draw(st.sampled_from(
        ['date', 'time', 'isocalendar', 'weekday', 'timedelta_since_january',
         'datetime'])), 'type': draw(st.sampled_from(
             ['M8[D]', 'M8[h]', 'M8[m]', 'M8[Y]', 'M8[M]', 'M8[W]', 'm8[s]',
              'm8[ns]', 'f8', 'i8', '2d', '>M8[s]', '0d'])),
        'v': draw(st.integers(-9999, 9999))}


def run_refused(case):
    array = np.array([case['v']], 'i8')
    if case['type'] == '2d':
        array = array.reshape(1, 1).view('M8[s]')
    elif case['type'] == '0d':
        array = array.view('M8[s]')[0:1].reshape(())
    else:
        array = array.view(case['type'])
    try:
        result = getattr(dateutils, case['f'])(array)
    except (ValueError, TypeError):
        return case['type']
    require(False, f'{case} accepted: {result}')


FACETS = [
    Facet('fields', dates_case(), run_fields, 4000, 3,
          'Date, time, ISO calendar, week day and time since January.'),
    Facet('native', dates_case(), run_native, 2500, 1,
          'Conversion to Python dates.'),
    Facet('text', text_case(), run_text, 3000, 1, 'Text notation of dates.'),
    Facet('refused', refused_case(), run_refused, 400, 1,
          'Other types and shapes are refused.'),
    large.facet('T01'),
]
