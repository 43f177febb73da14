"""E01: geodetic and geocentric coordinates are inverse of each other."""
import math

import numpy as np
from hypothesis import strategies as st

import pyinterp.core.geodetic as core
from pyinterp import geodetic
from vf import defaults, geodesy, large, places
from vf.engine import Facet, require

PARTS = ['geodetic']
RULE = """Batches of up to 60 positions (poles, equator, date line, tiny
latitudes, altitudes from -11 km to 40000 km, any turn of longitude) on
spheroids of several sizes whose flattening goes from 0 to 1/10, converted to
geocentric coordinates, back, and to another spheroid, with one or several
threads; constants of the same spheroids against their definitions (areas and
volumes by quadrature). Large inputs and
structures of up to tens of thousands of items. Non-trivial: positions outside the poles on a flattened
spheroid."""
ASSUMPTIONS = [
    'The inverse conversion is exact to rounding for the flattening of the '
    'Earth and of Mars, its latitude has an error that grows like the seventh '
    'power of the flattening beyond 1/150.',
]

flattenings = st.one_of(
    st.sampled_from([0.0, geodesy.F, 1 / 298.257222101, 1 / 169.89,
                     1e-9, 1 / 150]), st.floats(0, 0.1).map(float))
spheroids = st.one_of(st.none(), st.tuples(
    st.sampled_from([6378137.0, 6378136.3, 3396190.0, 1.0e6, 6371000.0]),
    flattenings).map(list))
latitudes = st.one_of(
    st.sampled_from([90.0, -90.0, 0.0, -0.0, 1e-9, -1e-12, 89.99999999, -45.0,
                     45.0, 56.789, 57.0, 33.2, -66.5]),
    st.floats(-90, 90))
longitudes = st.one_of(
    st.sampled_from([0.0, 180.0, -180.0, 90.0, -90.0, 270.0, 359.999999999,
                     179.99999999999, -1e-12, 720.0]),
    st.floats(-180, 360), st.floats(-1000, 1000))
altitudes = st.one_of(
    st.sampled_from([0.0, -11000.0, 8848.0, 800e3, 1336e3, 36e6]),
    st.floats(-11000, 12000), st.floats(0, 4e7))

case_strategy = st.fixed_dictionaries({
    'spheroid': spheroids, 'target': spheroids,
    'points': st.lists(st.tuples(longitudes, latitudes, altitudes).map(list),
                       min_size=1, max_size=60),
    'threads': st.sampled_from([1, 1, 0, 3]),
})


def parameters(spheroid):
    return spheroid or (geodesy.A, geodesy.F)


def run(case):
    where = f'{case}'
    a, f = parameters(case['spheroid'])
    system = geodetic.Coordinates(
        None if case['spheroid'] is None else geodetic.Spheroid((a, f)))
    require((system.spheroid.semi_major_axis, system.spheroid.flattening) ==
            (a, f), f'{where}: spheroid of the system')
    lon, lat, alt = (np.array(v) for v in zip(*case['points']))
    kept = lon.copy(), lat.copy(), alt.copy()
    options = {'num_threads': case['threads']}
    x, y, z = system.lla_to_ecef(lon, lat, alt, **options)
    require(all(np.array_equal(u, v) for u, v in zip(kept, (lon, lat, alt))),
            f'{where}: arguments modified')
    xyz = places.to_ecef(lon, lat, alt, a, f)
    size = a + np.abs(alt)
    turns = np.maximum(1, np.abs(lon) / 360)
    error = np.abs(np.stack([x, y, z], 1) - xyz).max(1)
    require((error <= 2e-15 * size * turns).all(),
            f'{where}: geocentric coordinates {x} {y} {z} instead of {xyz}')
    back = system.ecef_to_lla(x, y, z, **options)
    check(where, back, lon, lat, alt, xyz, a, f)
    # From the exact position.
    check(where, system.ecef_to_lla(*xyz.T.copy(), **options), lon, lat, alt,
          xyz, a, f)
    # To another spheroid.
    a2, f2 = parameters(case['target'])
    target = geodetic.Coordinates(
        None if case['target'] is None else geodetic.Spheroid((a2, f2)))
    lon2, lat2, alt2 = system.transform(target, lon, lat, alt, **options)
    # Deep under the surface of the target the problem is ill-posed.
    deep = np.linalg.norm(xyz, axis=1) < 0.98 * a2 * (1 - f2)
    there = places.to_ecef(lon2, lat2, alt2, a2, f2)
    limit = (1e-15 * turns + 3e-15 + 20 * f2**7) * np.maximum(size, a2)
    require((np.abs(there - xyz).max(1) <= limit)[~deep].all(),
            f'{where}: moved by the transformation to {lon2} {lat2} {alt2}')
    if f == 0 or (np.abs(lat) == 90).all():
        return None
    return 'flat' if f > 1 / 150 else 'round'


def check(where, back, lon, lat, alt, xyz, a, f):
    size = a + np.abs(alt)
    turns = np.maximum(1, np.abs(lon) / 360)
    lo, la, h = back
    require((np.abs(lo) <= 180).all() and (np.abs(la) <= 90).all(),
            f'{where}: out of range {lo} {la}')
    # Latitude and altitude, in metres.
    limit = 4e-15 * size + 20 * f**7 * a
    require((np.radians(np.abs(la - lat)) * size <= limit).all(),
            f'{where}: latitude {la} instead of {lat}')
    require((np.abs(h - alt) <= 4e-15 * size + 2 * f**7 * a).all(),
            f'{where}: altitude {h} instead of {alt}')
    away = np.hypot(xyz[:, 0], xyz[:, 1])
    turn = np.abs((lo - lon + 180) % 360 - 180)
    require((np.radians(turn) * away <= 6e-15 * size * turns).all(),
            f'{where}: longitude {lo} instead of {lon}')


def run_constants(case):
    a, f = parameters(case['spheroid'])
    s = core.Spheroid(a, f) if case['spheroid'] else core.Spheroid()
    where = f'{case}'
    b = a * (1 - f)
    require((s.semi_major_axis, s.flattening) == (a, f), f'{where}: {s}')

    def close(name, value, expected, tol=1e-14):
        require(math.isclose(value, expected, rel_tol=tol, abs_tol=0),
                f'{where}: {name} {value} instead of {expected}')

    close('semi_minor_axis', s.semi_minor_axis(), b)
    e2, ep2 = f * (2 - f), f * (2 - f) / (1 - f)**2
    # These are differences of squares.
    require(abs(s.first_eccentricity_squared() - e2) <= 1e-15 and
            abs(s.second_eccentricity_squared() - ep2) <= 1e-15,
            f'{where}: eccentricities')
    require(abs(s.linear_eccentricity()**2 - a * a * e2) <= 1e-15 * a * a,
            f'{where}: linear eccentricity {s.linear_eccentricity()}')
    close('circumference', s.equatorial_circumference(), 2 * math.pi * a)
    close('circumference', s.equatorial_circumference(True), 2 * math.pi * a)
    close('circumference', s.equatorial_circumference(False), 2 * math.pi * b)
    close('polar radius', s.polar_radius_of_curvature(), a * a / b)
    close('equatorial radius', s.equatorial_radius_of_curvature(), b * b / a)
    close('axis ratio', s.axis_ratio(), 1 - f)
    close('mean radius', s.mean_radius(), (2 * a + b) / 3)
    close('volumetric radius', s.volumetric_radius()**3, a * a * b, 1e-13)
    # Sphere of the same area, by integration of the element of area.
    x, w = geodesy.NODES, geodesy.WEIGHTS
    phi = (x + 1) * np.pi / 4
    element = b * b * np.cos(phi) / (1 - e2 * np.sin(phi)**2)**2
    area = float((element * w).sum() * np.pi / 4)  # r^2 = integral on a half
    noise = 1e-14 + (1e-15 / math.sqrt(2 * f) if f else 0)
    close('authalic radius', s.authalic_radius(), math.sqrt(area),
          max(noise, 1e-13))
    for lat in case['latitudes']:
        p = places.to_ecef(12.0, lat, 0.0, a, f)
        close('geocentric radius', s.geocentric_radius(lat),
              float(np.linalg.norm(p)))
    return 'sphere' if f == 0 else 'flattened'


FACETS = [
    Facet('conversion', case_strategy, run, 3500, 2,
          'Conversions to geocentric coordinates, back, and between spheroids.'
          ),
    Facet('constants', st.fixed_dictionaries({
        'spheroid': spheroids,
        'latitudes': st.lists(latitudes, max_size=5)}), run_constants, 2000, 1,
          'Constants of a spheroid.'),
    defaults.facet('E01'),
    large.facet('E01'),
]
