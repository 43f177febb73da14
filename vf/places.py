"""Positions on the Earth shared by the checks of spatial indexes."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

A, F = 6378137.0, 1 / 298.257223563

#: Where points are drawn: longitude, latitude and extent in degrees.
regions = st.one_of(
    st.sampled_from([[0.0, 0.0, 180.0], [180.0, 10.0, 5.0], [30.0, 88.0, 4.0],
                     [-60.0, -89.0, 3.0], [0.0, 0.0, 1.0],
                     [-179.0, -45.0, 20.0], [10.0, 45.0, 0.25]]),
    st.tuples(st.integers(-180, 180).map(float),
              st.integers(-80, 80).map(float),
              st.sampled_from([0.5, 3.0, 10.0, 40.0])).map(list))


def draw_places(rng, count, region, turns=False):
    """Longitudes and latitudes, multiples of 1/64 degree."""
    x0, y0, extent = region
    lat = np.clip(y0 + rng.uniform(-1, 1, count) * min(extent, 90), -90, 90)
    lon = x0 + rng.uniform(-1, 1, count) * extent
    if turns:
        lon = lon + 360.0 * rng.integers(-2, 3, count)
    lon, lat = np.round(lon * 64) / 64, np.round(lat * 64) / 64
    return lon, lat


def to_ecef(lon, lat, alt, a=A, f=F):
    """Geocentric coordinates, from their definition."""
    lon, lat = np.radians(np.asarray(lon, 'f8')), np.radians(
        np.asarray(lat, 'f8'))
    e2 = f * (2 - f)
    n = a / np.sqrt(1 - e2 * np.sin(lat)**2)
    return np.stack([(n + alt) * np.cos(lat) * np.cos(lon),
                     (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (1 - e2) + alt) * np.sin(lat)], -1)
