"""Short tracks (polylines of geodesics) and where they cross."""
from __future__ import annotations

import hypothesis.strategies as st
import numpy as np

from vf import geodesy

#: Conventions of longitudes.
WRAPS = [lambda x: x, lambda x: x % 360, lambda x: (x + 180) % 360 - 180]


@st.composite
def pairs(draw, scales=(0.1, 1.0, 5.0, 10.0), least=2, wobble=6,
          max_lat=70):
    """Two tracks around the same place."""
    centre = draw(st.one_of(
        st.integers(-180, 180), st.sampled_from([0, 180, -180, 179, 90])))
    case = {'lon': centre, 'lat': draw(st.integers(-max_lat, max_lat)),
            'scale': draw(st.sampled_from(scales)),
            'wraps': [draw(st.integers(0, 2)) for _ in range(2)],
            'tracks': []}
    for k in range(2):
        n = draw(st.integers(least, 10))
        case['tracks'].append({
            'angle': draw(st.integers(0, 15)) * 22.5 + 5 * k,
            'along': draw(st.integers(-6, 6)),
            'across': draw(st.integers(-10, 10)),
            'wobble': draw(st.lists(st.integers(-wobble, wobble), min_size=n,
                                    max_size=n)),
        })
    return case


def track(case, k):
    """Positions of the vertices of a track, without any wrapping."""
    item = case['tracks'][k]
    n = len(item['wobble'])
    along = np.linspace(-1, 1, n) + item['along'] / 10
    across = np.array(item['wobble']) / 24 + item['across'] / 16
    angle = np.radians(item['angle'])
    x = along * np.cos(angle) - across * np.sin(angle)
    y = along * np.sin(angle) + across * np.cos(angle)
    radial = np.radians(np.hypot(x, y) * case['scale'])
    azimuth = np.arctan2(x, y)
    lat0 = np.radians(case['lat'])
    lat = np.arcsin(np.clip(np.sin(lat0) * np.cos(radial) + np.cos(
        lat0) * np.sin(radial) * np.cos(azimuth), -1, 1))
    lon = case['lon'] + np.degrees(np.arctan2(
        np.sin(azimuth) * np.sin(radial) * np.cos(lat0),
        np.cos(radial) - np.sin(lat0) * np.sin(lat)))
    return [np.round(v * 2**20) / 2**20 for v in (lon, np.degrees(lat))]


def wrapped(case, k):
    lon, lat = track(case, k)
    return WRAPS[case['wraps'][k]](lon), lat


def _offsets(lon, lat, start, stop):
    """Signed offset from the geodesic of every position, in metres."""
    edge = geodesy.Geodesic(*start, *stop)
    way = geodesy.Geodesic(*start, lon, lat)
    turn = way.azimuth - edge.azimuth
    return np.sin(turn) * way.length, np.cos(turn) * way.length, edge.length


def crossings(first, second):
    """Positions of the crossings of two tracks: [(lon, lat, i, j)], and the
    smallest distance, in metres, between a vertex and the other track."""
    (x1, y1), (x2, y2) = first, second
    i, j = np.meshgrid(np.arange(len(x1) - 1), np.arange(len(x2) - 1),
                       indexing='ij')
    i, j = i.ravel(), j.ravel()
    a, b = (x1[i], y1[i]), (x1[i + 1], y1[i + 1])
    c, d = (x2[j], y2[j]), (x2[j + 1], y2[j + 1])
    doubt, sides = np.inf, []
    for start, stop, ends in ((c, d, (a, b)), (a, b, (c, d))):
        pair = []
        for end in ends:
            side, along, size = _offsets(*end, start, stop)
            outside = np.maximum(np.maximum(-along, along - size), 0)
            doubt = min(doubt, np.hypot(side, outside).min())
            pair.append(side)
        sides.append(pair[0] * pair[1] < 0)
    meet = sides[0] & sides[1]
    result = []
    if meet.any():
        i, j = i[meet], j[meet]
        a, b, c, d = (tuple(v[meet] for v in p) for p in (a, b, c, d))
        edge = geodesy.Geodesic(*a, *b)
        low, high = np.zeros(len(i)), np.ones(len(i))
        sign = np.sign(_offsets(*a, c, d)[0])
        for _ in range(45):
            mid = (low + high) / 2
            same = np.sign(_offsets(*edge.at(mid), c, d)[0]) == sign
            low, high = np.where(same, mid, low), np.where(same, high, mid)
        lon, lat = edge.at((low + high) / 2)
        result = list(zip(lon.tolist(), lat.tolist(), i.tolist(), j.tolist()))
    return result, doubt
