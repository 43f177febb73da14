"""O02: swaths."""
import math

import hypothesis.strategies as st
import numpy as np
import pyinterp
from pyinterp import core, geodetic

from vf import geodesy
from vf.engine import Facet, require

PARTS = ['geodetic', 'axis', 'interpolate1d']
RULE = """Tracks of two points to about 60, of satellites at any inclination,
with or without the rotation of the Earth, at any place (poles, equator and date
line included), in both directions, every 0.1 to 100 km, on spheres and
spheroids; any resolution, half swath (up to 500 km) and half gap (zero
included), whole numbers of pixels or not; thresholds on pixels or between them.
Non-trivial: at least two pixels on each side."""
ASSUMPTIONS = [
    'positive distances are on the right of the track',
    'directions are known within the bend of the track between two points',
    'on a spheroid, distances are those of a sphere of the radius of the '
    'place: within 2.2 times the flattening',
    'the last pixel is at the half swath, or less than a resolution before',
]
A, F = geodesy.A, geodesy.F
seeds = st.integers(0, 99999)


def module():
    import pyinterp.orbit as orbit
    return orbit


def ecef(lon, lat, f):
    """Directions from the centre of the Earth of points on a spheroid."""
    lon, lat = np.radians(lon), np.radians(lat)
    z = (1 - f)**2 * np.sin(lat)
    vector = np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon),
                       z], -1)
    return vector / np.linalg.norm(vector, axis=-1)[..., None]


@st.composite
def tracks(draw):
    kilometres = draw(st.sampled_from([0.1, 0.5, 2, 2, 7, 10, 30, 100]))
    return {
        'inclination': draw(st.one_of(
            st.floats(0, 180).map(lambda v: round(v, 2)),
            st.sampled_from([0, 90, 180, 77.6, 98, 66]))),
        'phase': draw(st.one_of(
            st.floats(0, 360).map(lambda v: round(v, 3)),
            st.sampled_from([0, 90, 180, 270]))),
        'lon0': draw(st.one_of(st.integers(-180, 180),
                               st.sampled_from([180, -180, 179.99, 0]))),
        'ratio': draw(st.sampled_from([0, 0.07, 0.07, 0.2])),
        'points': draw(st.one_of(st.integers(2, 6), st.integers(2, 60))),
        'step': kilometres, 'wrap': draw(st.booleans()),
        'sphere': draw(st.sampled_from([None, 'wgs', 'sphere', 'sphere',
                                        'flat'])),
        'across': draw(st.sampled_from([None, 0.25, 0.1, 1, 2, 5, 0.3, 7.7,
                                        20])),
        'along': draw(st.sampled_from([None, 0.25, 1, 5, 2])),
        'swath': draw(st.one_of(
            st.sampled_from([None, 60, 70, 10, 0.3, 120, 500]),
            st.floats(0.5, 200).map(lambda v: round(v, 2)))),
        'gap': draw(st.one_of(
            st.sampled_from([None, 0, 0.0, 10, 2, 0.1, 5]),
            st.floats(0, 30).map(lambda v: round(v, 2)))),
        'bounds': [draw(st.integers(-1, 60)), draw(st.integers(0, 80)),
                   draw(st.sampled_from([0.0, 0.0, 0.5]))],
        'seed': draw(seeds),
    }


def spheroid_of(case):
    kind = case['sphere']
    if kind is None:
        return None, A, F
    a, f = {'wgs': (A, F), 'sphere': (6371e3, 0.0),
            'flat': (6371e3, 1 / 150)}[kind]
    return geodetic.Spheroid((a, f)), a, f


def position(case, angle):
    """Longitudes and latitudes along the track, angles in radians."""
    inclination = math.radians(case['inclination'])
    u = np.radians(case['phase']) + angle
    lat = np.arcsin(np.clip(np.sin(inclination) * np.sin(u), -1, 1))
    lon = np.arctan2(np.cos(inclination) * np.sin(u), np.cos(u))
    return (np.degrees(lon) + case['lon0'] -
            np.degrees(angle) * case['ratio'], np.degrees(lat))


def right_of(case, angle, f):
    """Directions on the right of the track, by differences."""
    small = 1e-5
    before = ecef(*position(case, angle - small), f)
    after = ecef(*position(case, angle + small), f)
    here = ecef(*position(case, angle), f)
    along = after - before
    along -= (along * here).sum(-1)[..., None] * here
    along /= np.linalg.norm(along, axis=-1)[..., None]
    return here, along, np.cross(along, here)


def check_pixels(case, angle, lon0, lat0, lon, lat, x_ac, a, f):
    """Pixels of a swath; x_ac in meters for each of them."""
    here, along, right = right_of(case, angle, f)
    pixel = ecef(lon, lat, f)
    require(bool(np.isfinite(pixel).all()), 'undefined pixels')
    require(bool((np.abs(lat) <= 90).all()), 'latitudes beyond the poles')
    side = (pixel * right[:, None]).sum(-1)
    ahead = (pixel * along[:, None]).sum(-1)
    up = (pixel * here[:, None]).sum(-1)
    far = np.arctan2(np.hypot(side, ahead), up)
    away = np.abs(x_ac) > 1
    if not away.any():
        require(bool((far * a <= 1.01).all()), 'pixels far from the track')
        return
    require(bool((np.sign(side[away]) == np.sign(x_ac[away])).all()),
            'pixels on the wrong side of the track')
    # On a sphere: exact distances. The track bends between two points.
    bend = np.arccos(np.clip((along[1:] * along[:-1]).sum(-1), -1, 1)).max()
    step = math.radians(case['step'] * 1e3 / a)
    if f == 0:
        gap = np.abs(far * a - np.abs(x_ac))
        slack = 1e-3 + np.abs(x_ac) * (bend**2 + 1e-9)
        require(bool((gap <= slack).all()),
                f'pixel {gap.max()} m from where it is announced')
    else:
        wide = np.broadcast_to(lon0[:, None], lon.shape)
        high = np.broadcast_to(lat0[:, None], lon.shape)
        line = geodesy.Geodesic(wide[away], high[away], lon[away], lat[away],
                                a=a, f=f)
        length, asked = line.length, np.abs(x_ac[away])
        gap = np.abs(length / asked - 1)[line.valid]
        require(gap.size == 0 or gap.max() <= 2.2 * f + bend**2 + 1e-6 +
                1e-2 / asked.min(),
                f'pixel {gap.max() if gap.size else 0} (relative) from where '
                f'it is announced')
        # On the sphere of the radius of the place.
        sine = np.sin(np.radians(lat0))
        radius = a * np.sqrt(
            (1 - sine**2 + (1 - f)**4 * sine**2) /
            (1 - sine**2 + (1 - f)**2 * sine**2))
        gap = np.abs(far * radius[:, None] / np.maximum(np.abs(x_ac), 1e-3) -
                     1)[away]
        require(bool((gap <= bend**2 + 2 * f**2 + 1e-6 + 1e-2 /
                      asked.min()).all()), f'pixel {gap.max()} (relative) from '
                f'where it is announced')
    # Perpendicular to the track.
    turn = np.abs(ahead / np.maximum(np.hypot(side, ahead), 1e-12))
    limit = np.full(len(angle), bend * 0.6 + 2 * f * np.abs(x_ac).max() / a +
                    f * 0.02 + 1e-6)
    limit[[0, -1]] += bend
    # Positions are known within rounding errors.
    limit = limit[:, None] + 1e-8 / np.maximum(far, 1e-12)
    require(bool((turn <= limit)[away].all()),
            f'pixels not across the track, by {turn[away].max()} rad')


def expected(case):
    """Distances across the track, in meters, and those in doubt."""
    across = case['across'] or 2.0
    swath = 70.0 if case['swath'] is None else case['swath']
    gap = 2.0 if case['gap'] is None else case['gap']
    return across, swath, gap


def run_swath(case):
    across, swath_width, gap = expected(case)
    spheroid, a, f = spheroid_of(case)
    angle = np.arange(case['points']) * case['step'] * 1e3 / a
    lon, lat = position(case, angle)
    if case['wrap']:
        lon = (lon + 180) % 360 - 180
    size = (swath_width - gap) / across
    if abs(size) > 600:
        return None
    orbit = module()
    equator = orbit.EquatorCoordinates.undefined()
    time = np.arange(len(lon)).astype('m8[s]')
    track = orbit.Pass(lon, lat, time, angle * a, equator)
    require(len(track) == len(lon), 'length')
    options = {name: case[key] for name, key in (
        ('across_track_resolution', 'across'),
        ('along_track_resolution', 'along'), ('half_swath', 'swath'),
        ('half_gap', 'gap')) if case[key] is not None}
    build = lambda: pyinterp.calculate_swath(track, spheroid=spheroid,
                                             **options)
    if size < 0:
        try:
            build()
        except ValueError:
            return ['refused']
        require(False, 'a swath narrower than its gap is accepted')
    swath = build()
    require(swath.lon_nadir is lon or bool((swath.lon_nadir == lon).all()),
            'nadir')
    require(bool((swath.lat_nadir == lat).all() and
                 (swath.time == time).all() and
                 (swath.x_al == track.x_al).all()), 'track')
    x_ac = swath.x_ac
    half = x_ac.shape[1] // 2
    require(swath.lon.shape == swath.lat.shape == x_ac.shape and
            x_ac.shape == (len(lon), 2 * half), 'shapes')
    require(half == math.floor(size + 1e-6) + 1,
            f'{half} pixels on each side, {size} + 1 expected')
    want = (gap + np.arange(half) * across) * 1e3
    want = np.concatenate([-want[::-1], want])
    require(bool((np.abs(x_ac - want) <= 1e-6).all()),
            'distances announced')
    if case['points'] > 2 or case['step'] < 50:
        check_pixels(case, angle, lon, lat, swath.lon, swath.lat, x_ac, a, f)
    # The central pixel.
    full = swath.insert_central_pixel()
    others = np.delete(np.arange(2 * half + 1), half)
    for name, centre in (('lon', lon), ('lat', lat), ('x_ac', 0)):
        table, before = getattr(full, name), getattr(swath, name)
        require(table.shape == (len(lon), 2 * half + 1), f'shape of {name}')
        require(bool((table[:, half] == centre).all()),
                f'central pixel of {name}')
        require(bool((table[:, others] == before).all()),
                f'other pixels of {name}')
    require(bool((full.lon_nadir == lon).all() and
                 (full.lat_nadir == lat).all() and
                 (full.time == time).all()), 'track')
    # The mask.
    low, high, between = case['bounds']
    low = (gap + (low + between) * across) * 1e3
    high = (gap + (high - between) * across) * 1e3
    if not between:
        # Exactly on pixels, when these exist.
        known = np.unique(np.abs(x_ac))
        low = known[np.abs(known - low).argmin()] if low > 0 else low
        high = known[np.abs(known - high).argmin()]
    for item in (swath, full):
        mask = item.mask((low, high))
        require(mask.shape == item.x_ac.shape, 'shape of the mask')
        kept = (np.abs(item.x_ac) >= low) & (np.abs(item.x_ac) <= high)
        require(bool((mask[kept] == 1).all() and
                     np.isnan(mask[~kept]).all()), 'mask')
    return [case['sphere'] or 'default'] if half > 1 else None


def run_core(case):
    """Swaths of short and ill-formed tracks."""
    across, swath_width, gap = expected(case)
    spheroid, a, f = spheroid_of(case)
    angle = np.arange(case['points'] % 5) * case['step'] * 1e3 / a
    lon, lat = position(case, angle)
    half = case['bounds'][0]

    def calculate(lon, lat, half):
        return core.geodetic.calculate_swath(lon, lat, across * 1e3,
                                             gap * 1e3, half, spheroid)

    wrong = [(lon[:1], lat[:1], 3), (lon[:0], lat[:0], 3),
             (lon, np.append(lat, 0), 3), (lon, lat, -1 - case['seed'] % 9)]
    for args in wrong:
        try:
            calculate(*args)
        except ValueError:
            continue
        require(False, f'{len(args[0])} longitudes, {len(args[1])} latitudes '
                f'and {args[2]} pixels accepted')
    if len(lon) < 2 or half < 1 or case['step'] > 50 or (
            gap + half * across > 1000):
        return None
    x, y = calculate(lon, lat, half)
    require(x.shape == y.shape == (len(lon), 2 * half), 'shape')
    want = (gap + np.arange(half) * across) * 1e3
    want = np.concatenate([-want[::-1], want])
    check_pixels(case, angle, lon, lat, x, y,
                 np.broadcast_to(want, x.shape), a, f)
    return [f'{len(lon)} points']


FACETS = [
    Facet('swath', tracks(), run_swath, quick=600, shards=3,
          doc='pixels, central pixel and mask of swaths'),
    Facet('short', tracks(), run_core, quick=600,
          doc='swaths of short and ill-formed tracks'),
]
