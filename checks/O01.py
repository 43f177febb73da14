"""O01: orbits, passes and their numbers."""
import itertools
import math

import hypothesis.strategies as st
import numpy as np
import pyinterp
from pyinterp import geodetic

from vf import defaults, geodesy
from vf.engine import Facet, require

PARTS = ['geodetic', 'axis', 'interpolate1d']
RULE = """Circular repeat orbits known analytically (inclination 10 to 170
degrees, 2 to 16 revolutions and 0 to 5 turns of the Earth per cycle, any
period, phase and longitude), sampled finely or so coarsely that they are
interpolated, for one cycle or more, and resampled every 2 to 100 km; spheres
and spheroids; passes of these orbits, whole or cut by a box. Orbits of 2 to
200 passes of any duration, pass numbers of any sign and size, intervals of any
length from any date. Non-trivial: at least two passes."""
ASSUMPTIONS = [
    'at most 0.4 turn of the Earth per revolution, 0.25 beyond 90 degrees of '
    'inclination: latitudes have two extrema per revolution',
    'the ephemeris covers its cycle, whose duration is given when the '
    'ephemeris must be interpolated',
    'dates and positions are known within the resolution of the ephemeris '
    'and of the orbit',
    'the durations of the passes add up to the cycle within one step',
    'pass 1 starts at any of the southernmost points of the cycle',
]
A, F = geodesy.A, geodesy.F
seeds = st.integers(0, 99999)
NS = 10**9


def module():
    import pyinterp.orbit as orbit
    return orbit


def unit(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon),
                     np.sin(lat)], -1)


def apart(lon1, lat1, lon2, lat2):
    """Angle between two positions, in degrees."""
    gap = np.linalg.norm(unit(lon1, lat1) - unit(lon2, lat2), axis=-1)
    return np.degrees(2 * np.arcsin(np.clip(gap / 2, 0, 1)))


class Track:
    """Analytical ground track of a repeat orbit."""

    def __init__(self, case):
        self.inclination = math.radians(case['inclination'])
        self.revolutions = case['revolutions']
        self.turns = case['turns']
        self.phase = case['phase']
        self.lon0 = case['lon0']
        self.step = case['step']
        self.steps = case['steps'] * self.revolutions + case['odd']
        self.cycle = self.step * self.steps  # ns
        self.period = self.cycle / self.revolutions

    def __call__(self, time):
        """Positions at dates given in nanoseconds."""
        time = np.asarray(time, 'f8') % self.cycle
        u = 2 * np.pi * (time / self.period + self.phase)
        lat = np.degrees(np.arcsin(np.sin(self.inclination) * np.sin(u)))
        lon = np.degrees(np.arctan2(np.cos(self.inclination) * np.sin(u),
                                    np.cos(u)))
        return lon + self.lon0 - 360 * self.turns * time / self.cycle, lat

    def souths(self):
        """Dates of the southernmost points of a cycle."""
        dates = [(k - 0.25 - self.phase) % self.revolutions * self.period
                 for k in range(1, self.revolutions + 1)]
        # Just before the origin of the ephemeris.
        return dates + [max(dates) - self.cycle]


@st.composite
def orbits(draw):
    inclination = draw(st.one_of(
        st.floats(10, 170).map(lambda v: round(v, 3)),
        st.sampled_from([66, 77.6, 98.5, 90, 50, 108, 20])))
    fine = draw(st.booleans())
    revolutions = draw(st.integers(2, 16 if fine else 6))
    ratio = 0.4 if inclination <= 90 else 0.25
    steps = draw(st.integers(120, 500 if fine else 240))
    step = draw(st.integers(1000, 500_000) if fine else
                st.integers(501_000, 1_500_000)) * 1000
    odd = draw(st.sampled_from([0, 0, 1, -1]))
    return {
        'inclination': inclination, 'revolutions': revolutions,
        'turns': draw(st.integers(0, max(0, int(ratio * revolutions)))),
        'phase': draw(st.one_of(
            st.floats(0, 1).map(lambda v: round(v, 4)),
            st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.7501, 0.7499]))),
        'lon0': draw(st.integers(-180, 360)), 'odd': odd,
        'fine': fine, 'steps': steps, 'step': step,
        'resolution': draw(st.sampled_from([20, 50, 100, 33.3, 15]))
        if revolutions > 2 else draw(st.sampled_from([50, 100, 10, 20, 75, None])),
        'height': draw(st.sampled_from([0.0, 857244.0, 1.3e6])),
        'cycle': draw(st.booleans()),
        'extra': draw(st.sampled_from([0, 0, 1, 30, 0.3])),
        'sphere': draw(st.sampled_from([None, None, 'sphere', 'flat'])),
        'unit': draw(st.sampled_from(['ns', 'us'])),
        'wrap': draw(st.booleans()),
        'bbox': draw(st.none() | st.tuples(
            st.integers(-180, 179), st.integers(1, 200),
            st.integers(-90, 89), st.integers(2, 120))),
        'seed': draw(seeds),
    }


def spheroid_of(case):
    kind = case['sphere']
    if kind is None:
        return None, A, F
    flattening = 0.0 if kind == 'sphere' else 1 / 200
    return geodetic.Spheroid((6371e3, flattening)), 6371e3, flattening


def build(case):
    """The orbit, its analytical track and what is known of its accuracy."""
    track = Track(case)
    spheroid, a, f = spheroid_of(case)
    extra = case['extra']
    extra = int(extra * case['steps']) if isinstance(extra, float) else extra
    known = case['cycle'] or not case['fine'] or extra > 0
    if not case['fine']:
        # The last interval is not interpolated.
        extra = max(extra, 1) + 1
    time = np.arange(track.steps + extra) * track.step
    lon, lat = track(time)
    if case['wrap']:
        lon = lon % 360
    dates = time.astype('m8[ns]').astype(f'm8[{case["unit"]}]')
    given = lon.copy(), lat.copy(), dates.copy()
    orbit = module().calculate_orbit(
        case['height'], lon, lat, dates,
        np.timedelta64(track.cycle, 'ns') if known else None,
        case['resolution'], spheroid)
    require(all(bool((x == y).all()) for x, y in zip(
        given, (lon, lat, dates))), 'the ephemeris given has changed')
    return orbit, track, a, f


def check_orbit(case, orbit, track, a, f):
    """Positions and dates of an orbit; the origin of its dates is returned."""
    time = orbit.time.astype('m8[ns]').astype('i8')
    require(len(time) == len(orbit.longitude) == len(orbit.latitude) ==
            len(orbit.x_al), 'arrays of different sizes')
    require(np.isfinite(orbit.longitude).all() and
            np.isfinite(orbit.latitude).all(), 'undefined positions')
    require(time[0] == 0, 'the first date is not zero')
    require(bool((np.diff(time) > 0).all()), 'dates out of order')
    resolution = case['resolution'] or 2
    require(np.allclose(orbit.x_al, np.arange(len(time)) * resolution,
                        rtol=1e-9, atol=1e-6),
            'distances along the track are not regular')
    # Origin of the dates: at most one step after a southernmost point.
    step = min(track.step, 500_000_000) if not case['fine'] else track.step
    best, few = None, np.linspace(0, len(time) - 1, 30).astype(int)
    for south in track.souths():
        first = math.ceil(south / step - 1) * step
        for k in range(3):
            origin = first + k * step
            gap = apart(orbit.longitude[few], orbit.latitude[few],
                        *track(time[few] + origin)).max()
            if best is None or gap < best[0]:
                best = (gap, origin, south)
    # The steps of the ephemeris and of the orbit, in revolutions.
    coarse = track.step / track.period
    out = resolution * 1e3 / (2 * np.pi * a)
    # A cut at the date line of the cycle leaves a step shorter than others.
    tolerance = np.degrees(
        (coarse**2 + (step / track.period)**2) * 4 *
        (0.1 + case['turns'] / case['revolutions']) + out**3) + 2e-5
    require(best[0] <= tolerance, f'positions {best[0]} degrees away from the '
            f'ephemeris, starting at any southernmost point')
    origin = best[1]
    lon, lat = track(time + origin)
    gap = apart(orbit.longitude, orbit.latitude, lon, lat)
    require(bool((gap <= tolerance).all()),
            f'position {gap.max()} degrees away from the ephemeris at the '
            f'same date')
    # Length of the steps.
    index = np.unique(np.linspace(0, len(time) - 2, 40).astype(int))
    line = geodesy.Geodesic(orbit.longitude[index], orbit.latitude[index],
                            orbit.longitude[index + 1],
                            orbit.latitude[index + 1], a=a, f=f)
    length = line.length[line.valid] * 1e-3
    require(bool((np.abs(length / resolution - 1) <= 0.01 + out).all()),
            f'steps of {length.min()} to {length.max()} km')
    # The end of the cycle.
    last = np.diff(time).max()
    missing = track.cycle - int(time[-1])
    require(0 < missing <= 2 * last + 2 * step,
            f'{missing} ns of the cycle are missing, steps of {last} ns')
    require(int(orbit.cycle_duration().astype('m8[ns]').astype('i8')) ==
            time[-1], 'duration of the cycle')
    return origin, tolerance, best[2]


def run_orbit(case):
    orbit, track, a, f = build(case)
    origin, tolerance, south = check_orbit(case, orbit, track, a, f)
    time = orbit.time.astype('i8')
    step = int(np.diff(time).max())
    count = orbit.passes_per_cycle()
    require(count == 2 * track.revolutions,
            f'{count} passes for {track.revolutions} revolutions')
    starts = orbit.pass_time.astype('m8[ns]').astype('i8')
    require(starts[0] == 0 and bool((np.diff(starts) > 0).all()),
            'passes out of order')
    # Passes start at the turning points.
    turns = south - origin + np.arange(count) * track.period / 2
    require(bool((np.abs(starts - turns) <= 2 * step + 2 * track.step).all()),
            'passes do not start at the extrema of latitude')
    length = [int(orbit.pass_duration(k).astype('m8[ns]').astype('i8'))
              for k in range(1, count + 1)]
    require(min(length) > 0 and
            abs(sum(length) - time[-1]) <= step,
            'the durations of the passes do not add up to the cycle')
    period = int(orbit.orbit_duration().astype('m8[ns]').astype('i8'))
    require(abs(period - time[-1] / track.revolutions) <= 2000,
            'duration of a revolution')
    line = orbit.curvilinear_distance()
    if case['sphere'] != 'sphere':
        require(abs(line[-1] * 1e-3 / orbit.x_al[-1] - 1) <= 0.01,
                'curvilinear distance')
    calculate = module().calculate_pass
    parts = [calculate(k, orbit) for k in range(1, count + 1)]
    sizes = [int(((time >= low) & (time < high)).sum()) for low, high in zip(
        starts, [*starts[1:], time[-1] + 1])]
    if min(sizes) < 5:
        return None
    require(all(item is not None for item in parts), 'missing pass')
    for name, whole in (('time', orbit.time), ('lon_nadir', orbit.longitude),
                        ('lat_nadir', orbit.latitude), ('x_al', orbit.x_al)):
        joined = np.concatenate([getattr(item, name) for item in parts])
        require(len(joined) == len(whole) and bool((joined == whole).all()),
                f'passes do not partition the orbit ({name})')
    for number, item in enumerate(parts, 1):
        require(len(item) == len(item.lat_nadir), 'length of the pass')
        # The ends of the passes are known within the steps.
        dates = item.time.astype('m8[ns]').astype('i8') + origin - south
        dates = dates - (number - 1) * track.period / 2
        inner = ((dates > step + track.step) &
                 (dates < track.period / 2 - step - track.step))
        slope = np.diff(item.lat_nadir[inner]) * (1 if number % 2 else -1)
        require(bool((slope >= -1e-9).all()),
                f'pass {number} is not '
                f'{"ascending" if number % 2 else "descending"}')
        check_equator(case, track, origin, south, number, item,
                      item.equator_coordinates, tolerance, True)
    return [f'{"fine" if case["fine"] else "coarse"}',
            'prograde' if case['inclination'] < 90 else 'retrograde']


def check_equator(case, track, origin, south, number, item, equator,
                  tolerance, required):
    if not required and equator.longitude != equator.longitude:
        return False
    require(math.isfinite(equator.longitude) and
            not np.isnat(equator.time),
            f'the crossing of the equator by pass {number} is not known')
    when = south + (number - 0.5) * track.period / 2
    lon, lat = track(when)
    # Between two points the track is taken as a geodesic at constant speed.
    resolution = (case['resolution'] or 2) * 1e3 / A
    slack = tolerance + np.degrees(resolution**2) * 0.05
    slack /= max(abs(math.sin(math.radians(case['inclination']))), 0.1)
    found = int(equator.time.astype('m8[ns]').astype('i8'))
    gap = abs((equator.longitude - lon + 180) % 360 - 180)
    require(gap <= slack,
            f'pass {number} crosses the equator at {equator.longitude}, '
            f'not {lon % 360}')
    late = abs(found + origin - when) / track.period * 360
    require(late <= slack, f'pass {number} crosses the equator '
            f'{late} degrees of revolution away')
    times = item.time.astype('m8[ns]').astype('i8')
    require(times[0] <= found <= times[-1],
            'the equator is crossed outside the pass')
    return True


def run_box(case):
    """Passes cut by a box."""
    if case['bbox'] is None:
        return None
    orbit, track, a, f = build(case)
    origin, tolerance, south = check_orbit(case, orbit, track, a, f)
    west, width, bottom, height = case['bbox']
    width = min(width, 179 - west) or 0.5
    east, top = west + width, min(bottom + height, 90)
    box = geodetic.Box(geodetic.Point(west, bottom),
                       geodetic.Point(east, top))
    calculate, labels = module().calculate_pass, set()
    for number in range(1, orbit.passes_per_cycle() + 1):
        whole = calculate(number, orbit)
        if whole is None:
            continue
        item = calculate(number, orbit, bbox=box)
        lon, lat = whole.lon_nadir, whole.lat_nadir
        east_of = (lon - west) % 360
        inside = (east_of <= width) & (lat >= bottom) & (lat <= top)
        clear = ((np.abs(east_of - width) > 1e-9) & (east_of > 1e-9) &
                 (east_of < 360 - 1e-9) & (np.abs(lat - bottom) > 1e-9) &
                 (np.abs(lat - top) > 1e-9) & (np.abs(lat) < 90 - 1e-9))
        sure, maybe = inside & clear, inside | ~clear
        if item is None:
            require(not sure.any(), f'pass {number} is not in the box')
            labels.add('out')
            continue
        times = whole.time.astype('i8')
        kept = np.isin(times, item.time.astype('i8'))
        require(kept.sum() == len(item), f'pass {number}: foreign points')
        require(bool((kept >= sure).all() and (kept <= maybe).all()),
                f'pass {number}: wrong points in the box')
        for name in ('lon_nadir', 'lat_nadir', 'x_al', 'time'):
            require(bool((getattr(item, name) ==
                          getattr(whole, name)[kept]).all()),
                    f'pass {number}: {name} changed')
        # Is the equator crossed between two successive points kept?
        sign = lat >= 0
        crossing = np.flatnonzero(sign[1:] != sign[:-1])
        index = int(crossing[0]) if len(crossing) else -1
        straddles = index >= 0 and kept[index] and kept[index + 1]
        holes = len(np.flatnonzero(np.diff(kept.astype(int)) == 1)) + kept[0]
        if holes > 1:
            labels.add('pieces')
            continue
        defined = check_equator(case, track, origin, south, number, item,
                                item.equator_coordinates, tolerance,
                                straddles)
        zero = (item.lat_nadir == 0).any()
        require(defined == straddles or zero,
                f'pass {number} cut away from the equator crosses it')
        labels.add('cut' if straddles else 'off')
    return sorted(labels) if 'cut' in labels or 'off' in labels else None


@st.composite
def lists(draw):
    return {
        'passes': draw(st.one_of(st.integers(2, 30), st.integers(2, 1000))),
        'seed': draw(seeds), 'even': draw(st.booleans()),
        'unit': draw(st.sampled_from(['ns', 'us', 'ms'])),
        'number': draw(st.one_of(
            st.integers(-50, 50), st.integers(-10**6, 10**6),
            st.integers(10**15, 10**18), st.integers(-10**18, -10**15))),
        'cycle': draw(st.one_of(st.integers(-5, 400),
                                st.integers(10**14, 10**15))),
        'first': draw(st.one_of(
            st.sampled_from([0, 1, -1]),
            st.integers(-8 * 10**9, 8 * 10**9))),
        'date': draw(st.sampled_from(['D', 's', 'ms', 'us', 'ns'])),
        'span': draw(st.sampled_from([None, 0, -1, 0.5, 1, 1.7, 3])),
        'exact': draw(st.booleans()), 'start': draw(st.integers(-40, 400)),
        'numpy': draw(st.booleans()),
    }


def run_numbers(case):
    """Numbers, durations and dates of passes."""
    rng = np.random.default_rng(case['seed'])
    count = case['passes']
    unit = {'ns': 1, 'us': 1000, 'ms': 10**6}[case['unit']]
    length = (np.full(count, 3000 * NS) if case['even'] else
              rng.integers(10**6, 10**13, count) // 10**6 * 10**6)
    starts = np.concatenate([[0], np.cumsum(length)[:-1]])
    step = int(rng.integers(1, max(2, length[-1] // 10**6))) * 10**6
    step = min(step, int(length[0]), int(length[-1]))
    time = np.unique(np.concatenate(
        [starts, [step, int(starts[-1] + length[-1]) - step]]))
    require(time[1] - time[0] == step, 'model')
    as_time = lambda v: (np.asarray(v) // unit).astype(f'm8[{case["unit"]}]')
    orbit = module().Orbit(
        8e5, np.zeros(len(time)), np.zeros(len(time)), as_time(starts),
        as_time(time), np.zeros(len(time)), None)
    nano = lambda v: int(v.astype('m8[ns]').astype('i8'))
    require(orbit.passes_per_cycle() == count, 'number of passes')
    require(nano(orbit.cycle_duration()) == time[-1], 'cycle')
    require(nano(orbit.delta_t()) // unit == int(
        (time[-1] - time[0]) / (len(time) - 1)) // unit, 'mean step')
    for k in {1, count, min(2, count), int(rng.integers(1, count + 1))}:
        require(nano(orbit.pass_duration(k)) == length[k - 1],
                f'duration of pass {k}')
    for wrong in (0, -1, count + 1):
        for call in (orbit.pass_duration,
                     lambda v: orbit.encode_absolute_pass_number(1, v)):
            try:
                call(wrong)
            except ValueError:
                continue
            require(False, f'pass {wrong} of {count} accepted')
    kind = np.int64 if case['numpy'] else int
    # Bijection between the numbers.
    for shift in (0, 1, count, -count):
        number = case['number'] + shift
        cycle, item = orbit.decode_absolute_pass_number(kind(number))
        require(1 <= item <= count, f'pass {item} of {count}')
        require((int(cycle), int(item)) ==
                ((number - 1) // count + 1, (number - 1) % count + 1),
                f'number {number}: cycle {cycle} and pass {item}')
        require(orbit.encode_absolute_pass_number(cycle, item) == number,
                f'number {number} does not come back')
    item = int(rng.integers(1, count + 1))
    number = orbit.encode_absolute_pass_number(kind(case['cycle']),
                                               kind(item))
    require(tuple(map(int, orbit.decode_absolute_pass_number(number))) ==
            (case['cycle'], item), 'cycle and pass do not come back')
    # Iteration.
    scale = {'D': 86400 * NS, 's': NS, 'ms': 10**6, 'us': 1000,
             'ns': 1}[case['date']]
    first = case['first'] * NS // scale
    date = np.datetime64(first, case['date'])
    start = first * scale
    cycle_length = int(time[-1])
    span = case['span']
    if span is None:
        last, end = None, start + cycle_length
    else:
        end = start + int(span * cycle_length)
        if case['exact'] and span > 0:
            # Exactly at the start of a pass.
            end = start + sum(int(length[(case['start'] - 1 + k) % count])
                              for k in range(1 + case['seed'] % count))
        last = np.datetime64(end, 'ns')
    got = []
    for cycle, item, when in orbit.iterate(date, last, case['start']):
        got.append((int(cycle), int(item),
                    int(when.astype('M8[ns]').astype('i8'))))
        require(len(got) <= 5 * count + 5, 'endless iteration')
    want, number = [], case['start']
    while start <= end:
        want.append(((number - 1) // count + 1, (number - 1) % count + 1,
                     start))
        start += int(length[(number - 1) % count])
        number += 1
    require(got == want, f'{len(got)} passes, {len(want)} expected, the '
            f'first {got[:1]} for {want[:1]}')
    # Without dates: a cycle from now.
    if case['seed'] % 8 == 0:
        before = np.datetime64('now') - np.timedelta64(1, 's')
        items = list(itertools.islice(orbit.iterate(), 3 * count))
        require(items[0][:2] == (1, 1) and before <= items[0][2] <=
                np.datetime64('now'), 'the iteration does not start now')
        require(len(items) in (count, count + 1), 'passes of a cycle')
    return ['cycles' if len(want) > count else 'part']


@st.composite
def samples(draw):
    case = draw(orbits())
    case['irregular'] = draw(st.booleans())
    case['window'] = draw(st.sampled_from([None, 4, 10, 50]))
    case['axis'] = draw(st.sampled_from(['i8', 'f8', 'm8']))
    return case


def run_interpolate(case):
    """Interpolation of positions."""
    track = Track(case)
    spheroid, a, f = spheroid_of(case)
    rng = np.random.default_rng(case['seed'])
    count = min(track.steps, 300)
    time = np.arange(count) * track.step + case['seed'] * NS
    if case['irregular']:
        time = time + rng.integers(0, track.step // 2, count)
    at = np.sort(rng.integers(time[0], time[-1] + 1, 40))
    at = np.concatenate([at, time[[0, 1, count // 2, count - 1]]])
    lon, lat = track(time)
    kind = case['axis']
    cast = lambda v: (v.astype('m8[ns]') if kind == 'm8' else v.astype(kind))
    kwargs = {}
    if case['window']:
        kwargs['half_window_size'] = case['window']
    interpolate = lambda at: module().interpolate(
        lon, lat, cast(time), cast(at), height=case['height'],
        wgs=geodetic.Coordinates(spheroid), **kwargs)
    x, y = interpolate(at)
    require(len(x) == len(y) == len(at), 'size')
    for beyond in (time[0] - track.step, time[-1] + track.step):
        try:
            x0, y0 = interpolate(np.array([time[1], beyond]))
        except IndexError:
            continue
        require(bool(np.isnan(x0[1]) and np.isnan(y0[1])),
                'position beyond the ephemeris')
    gap = apart(x, y, *track(at))
    # Cubic splines, natural at the ends of their windows.
    step = 2 * np.pi * track.step / track.period * (
        1.5 if case['irregular'] else 1)
    ratio = case['turns'] / case['revolutions']
    ends = (at < time[0] + 8 * track.step) | (at > time[-1] - 8 * track.step)
    decay = np.where(ends, 1, 0.3**((case['window'] or 10) - 1))
    limit = np.degrees(step**4 + 0.1 * step**2 * (0.1 + ratio) * decay) + 1e-6
    require(bool((gap[-4:] <= 2e-6).all()),
            f'a given position moved by {gap[-4:].max()} degrees')
    require(bool((gap <= limit).all()), f'{gap.max()} degrees away')
    return ['irregular' if case['irregular'] else 'regular']


FACETS = [
    Facet('orbit', orbits(), run_orbit, quick=40, shards=4,
          doc='orbits and their passes against analytical tracks'),
    Facet('box', orbits().filter(lambda c: c['bbox'] is not None), run_box,
          quick=32, shards=4, doc='passes cut by a box'),
    Facet('numbers', lists(), run_numbers, quick=600, shards=2,
          doc='numbers, durations and dates of passes'),
    Facet('interpolate', samples(), run_interpolate, quick=300, shards=2,
          doc='interpolation of positions'),
    defaults.facet('O01', 10),
]
