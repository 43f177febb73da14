"""Polygons and lines with geodesic edges, and point-set membership."""
from __future__ import annotations

import hypothesis.strategies as st
import numpy as np

from . import geodesy

#: Points per edge of the curves that replace the geodesics.
DENSE = 160


@st.composite
def stars(draw, radii=(0.25, 1, 5, 20), holes=True, around=None):
    """Star-shaped polygon in polar coordinates around a centre."""
    radius = draw(st.sampled_from(radii)) if around is None else around[2]
    if around is None:
        lon = draw(st.sampled_from([0, 10, 180, -180, 179.5, -179.75, 359.5,
                                    0.25, 77, -120, 200]))
        top = 84 - radius
        lat = draw(st.one_of(st.sampled_from([0.0, 0.0, 45.0, -60.0]),
                             st.integers(-int(top), int(top)).map(float)))
        lat = max(-top, min(top, lat))
    else:
        # Somewhere near another shape.
        lon = around[0] + draw(st.integers(-24, 24)) / 16 * radius
        lat = around[1] + draw(st.integers(-24, 24)) / 16 * radius
        lat = max(-84 + radius, min(84 - radius, lat))
        radius = radius * draw(st.sampled_from([0.5, 1, 1]))
    big = radius > 6
    n = draw(st.integers(5 if big else 3, 12))
    low = 8 if big else 5
    radial = draw(st.lists(st.integers(low, 16), min_size=n, max_size=n))
    return {'lon': lon, 'lat': lat, 'radius': radius, 'radial': radial,
            'turn': draw(st.integers(0, 15)), 'hole': holes and draw(
                st.sampled_from([0, 0, 1, 2]))}


def ring(star, scale=1.0, shift=0):
    """Vertices of the outline, clockwise and closed."""
    n = len(star['radial'])
    angles = -(np.arange(n) + star['turn'] / 16) * 2 * np.pi / n
    radial = np.radians(star['radius'] * scale *
                        np.array(star['radial']) / 16)
    lat0 = np.radians(star['lat'])
    # Point of the sphere at a distance and an azimuth.
    azimuth = np.pi / 2 - angles
    lat = np.arcsin(np.sin(lat0) * np.cos(radial) +
                    np.cos(lat0) * np.sin(radial) * np.cos(azimuth))
    lon = star['lon'] + np.degrees(np.arctan2(
        np.sin(azimuth) * np.sin(radial) * np.cos(lat0),
        np.cos(radial) - np.sin(lat0) * np.sin(lat)))
    # Multiples of 2**-20 degree: turns are added without any rounding, and
    # two vertices of the same longitude really have the same.
    lon, lat = (np.round(x * 2**20) / 2**20 for x in (lon, np.degrees(lat)))
    pairs = list(zip((lon + shift).tolist(), lat.tolist()))
    return pairs + pairs[:1]


def rings(star):
    """Outer ring, then the holes (counter-clockwise)."""
    result = [ring(star)]
    # A hole fits in the disc inscribed in the outline.
    low = min(star['radial']) / 16
    n = len(star['radial'])
    inner = low * np.cos(np.pi / n) * 0.8
    if star['hole'] == 1:
        hole = dict(star, radial=[16] * max(n, 4), radius=star['radius'] *
                    inner * 0.6)
        result.append(ring(hole)[::-1])
    elif star['hole'] == 2:
        for side in (-1, 1):
            hole = dict(star, radial=[16] * 4, radius=star['radius'] * inner *
                        0.25, lon=star['lon'] + side * inner * 0.4 *
                        star['radius'] / np.cos(np.radians(star['lat'])))
            result.append(ring(hole)[::-1])
    return result


class Region:
    """Set of points enclosed by rings with geodesic edges."""

    def __init__(self, outlines, lon0, a=geodesy.A, f=geodesy.F):
        self.lon0 = lon0
        self.edges = []
        for outline in outlines:
            lon, lat = np.array(outline).T
            g = geodesy.Geodesic(lon[:-1], lat[:-1], lon[1:], lat[1:], a, f)
            x, y = [], []
            for k in range(DENSE):
                u, v = g.at(k / DENSE)
                x.append(u)
                y.append(v)
            x, y = np.array(x).T.ravel(), np.array(y).T.ravel()
            x = (x - lon0 + 180) % 360 - 180
            self.edges.append((x, y))
        self.segments = [np.concatenate(v) for v in zip(*[
            (x, y, np.roll(x, -1), np.roll(y, -1)) for x, y in self.edges])]

    def query(self, lon, lat):
        """Membership and distance to the boundary, in degrees."""
        x = (np.asarray(lon) - self.lon0 + 180) % 360 - 180
        y = np.asarray(lat, 'f8')
        x0, y0, x1, y1 = self.segments
        X, Y = x[:, None], y[:, None]
        cross = (y0 > Y) != (y1 > Y)
        with np.errstate(divide='ignore', invalid='ignore'):
            at = x0 + (Y - y0) * (x1 - x0) / (y1 - y0)
        inside = (cross & (at > X)).sum(1) % 2 == 1
        scale = np.cos(np.radians(Y))
        dx, dy = (x1 - x0) * scale, y1 - y0
        px, py = (X - x0) * scale, Y - y0
        norm = dx**2 + dy**2
        t = np.clip((px * dx + py * dy) / np.where(norm > 0, norm, 1), 0, 1)
        gap = np.sqrt((px - t * dx)**2 + (py - t * dy)**2).min(1)
        return inside, gap

    def envelope(self):
        x, y = self.segments[0], self.segments[1]
        return (x.min() + self.lon0, y.min(), x.max() + self.lon0, y.max())


def area(outlines, a=geodesy.A, f=geodesy.F):
    """Area enclosed by clockwise outlines (holes counter-clockwise)."""
    total = 0.0
    for outline in outlines:
        lon, lat = np.array(outline).T
        g = geodesy.Geodesic(lon[:-1], lat[:-1], lon[1:], lat[1:], a, f)
        total += g.area().sum()
    return total


def length(outlines, a=geodesy.A, f=geodesy.F):
    total = 0.0
    for outline in outlines:
        lon, lat = np.array(outline).T
        total += geodesy.distance(lon[:-1], lat[:-1], lon[1:], lat[1:], a,
                                  f).sum()
    return total


def test_points(regions, lon0, lat0, radius, seed, n=24):
    """Points everywhere and close to the boundaries."""
    rng = np.random.default_rng(seed)
    lon = lon0 + rng.uniform(-1.6, 1.6, n) * radius / np.cos(
        np.radians(lat0))
    lat = np.clip(lat0 + rng.uniform(-1.6, 1.6, n) * radius, -89.5, 89.5)
    for region in regions:
        x, y = region.segments[:2]
        pick = rng.integers(0, len(x), n // 2)
        step = radius * 10.0**rng.uniform(-2.4, -0.5, n // 2)
        way = rng.uniform(0, 2 * np.pi, n // 2)
        lat1 = np.clip(y[pick] + step * np.sin(way), -89.5, 89.5)
        lon1 = region.lon0 + x[pick] + step * np.cos(way) / np.cos(
            np.radians(y[pick]))
        lon, lat = np.append(lon, lon1), np.append(lat, lat1)
    # Elsewhere on the Earth.
    lon = np.append(lon, rng.uniform(-180, 180, 4))
    lat = np.append(lat, rng.uniform(-90, 90, 4))
    return lon, lat


def margin(radius):
    """Doubt on the position of the boundary."""
    return 1e-3 + 1e-3 * radius
