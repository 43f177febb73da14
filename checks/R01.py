"""R01: spatial index queries equal exhaustive search."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import pyinterp
import pyinterp.core as core
from pyinterp.core import geodetic
from vf import defaults, large, places
from vf.engine import Facet, require

PARTS = ['rtree', 'geodetic']
RULE = """Histories of up to six operations (bulk loads that replace the
content, insertions, clears, copies, pickles) on indexes of both precisions,
geodetic (several spheroids, poles and date line included, longitudes on any
turn, altitudes) or Cartesian, up to 400 points in the whole, duplicates
included; after each one the nearest neighbours of several points are requested
for 1 to 20 neighbours, with and without radius, and with the request of being
surrounded. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two neighbours and more points than
neighbours. The oracle is an exhaustive search in Python."""
ASSUMPTIONS = [
    'Distances are straight lines in geocentric coordinates; neighbours at the '
    'same distance are interchangeable.',
    'A point is surrounded when it lies in the box, in geocentric coordinates, '
    'of its neighbours.',
    'Positions are multiples of 1/64 degree; tolerance 1 micrometre, 10 metres '
    'in single precision.',
]
SPHEROIDS = [None, [6378136.3, 1 / 298.257], [6370997.0, 0.0]]


@st.composite
def history(draw, big=False):
    ops = []
    for _ in range(draw(st.integers(1, 2 if big else 6))):
        op = draw(st.sampled_from(
            ['packing', 'packing', 'insert', 'insert', 'insert', 'clear',
             'pickle', 'deepcopy', 'copy']))
        if not ops:
            op = draw(st.sampled_from(['packing', 'insert']))
        count = draw(st.sampled_from([100, 200, 17, 33]) if big
                     else st.sampled_from([0, 1, 2, 3, 5, 8, 16, 17, 40]))
        ops.append([op, count, draw(st.integers(0, 2**16)),
                    draw(st.integers(2, 3))])
    return {'ops': ops, 'kind': draw(st.sampled_from(['f8', 'f8', 'f4'])),
            'ecef': draw(st.sampled_from([False, False, True])),
            'spheroid': draw(st.integers(0, 2)),
            'region': draw(places.regions),
            'altitude': draw(st.sampled_from([0, 1000, 500000])),
            'duplicates': draw(st.booleans()),
            'k': draw(st.integers(1, 20)), 'seed': draw(st.integers(0, 999)),
            'columns': draw(st.integers(2, 3)),
            'radius': draw(st.sampled_from([None, 0.2, 0.5, 0.8, 1e-9, 5])),
            'within': draw(st.booleans()),
            'threads': draw(st.sampled_from([1, 1, 1, 2])),
            'raw': draw(st.booleans())}


def make_points(case, rng, count, columns, turns=False):
    """Coordinates given to the index, and their geocentric position."""
    lon, lat = places.draw_places(rng, count, case['region'], turns)
    alt = np.round(rng.uniform(0, 1, count) * case['altitude'])
    if case['duplicates'] and count > 2:
        pick = rng.integers(0, count, count // 3)
        for v in (lon, lat, alt):
            v[:len(pick)] = v[pick]
    if columns == 2:
        alt = alt * 0
    if case['ecef']:
        scale = case['region'][2] * 100
        given = np.round(np.stack([lon, lat, alt], 1) * scale)
        given = given.astype(case['kind'])
        return given[:, :columns].copy(), given.astype('f8')
    a, f = SPHEROIDS[case['spheroid']] or (places.A, places.F)
    given = np.stack([lon, lat, alt], 1)
    return (given[:, :columns].astype(case['kind']),
            places.to_ecef(lon, lat, alt, a, f))


def run(case):
    kind = case['kind']
    spheroid = SPHEROIDS[case['spheroid']]
    system = geodetic.Spheroid(*spheroid) if spheroid else None
    raw = case['raw']
    if case['ecef']:
        system = None
    if raw:
        cls = core.RTree3DFloat64 if kind == 'f8' else core.RTree3DFloat32
        tree = cls(system, case['ecef'])
    else:
        tree = pyinterp.RTree(system, np.dtype(kind), case['ecef'])
    where = f'{case}'
    xyz = np.zeros((0, 3))
    given = np.zeros((0, 3))
    serial = 0
    labels = set()
    others = []
    for op, count, seed, columns in case['ops']:
        rng = np.random.default_rng(seed)
        if op in ('packing', 'insert'):
            coordinates, position = make_points(case, rng, count, columns,
                                                turns=True)
            kept = coordinates.copy()
            values = np.arange(serial, serial + count).astype(kind)
            getattr(tree, op)(coordinates, values)
            require(np.array_equal(coordinates, kept) and np.array_equal(
                values, np.arange(serial, serial + count)),
                    f'{where}: arguments modified by {op}')
            full = np.zeros((count, 3))
            full[:, :columns] = coordinates
            if op == 'packing':
                xyz, given, first = position, full, serial
                ids = np.arange(serial, serial + count)
            else:
                ids = np.concatenate([ids, np.arange(serial, serial + count)]
                                     ) if serial else np.arange(count)
                xyz = np.concatenate([xyz, position])
                given = np.concatenate([given, full])
            serial += count
        elif op == 'clear':
            tree.clear()
            xyz, given, ids = xyz[:0], given[:0], ids[:0]
        else:
            other = {'pickle': lambda t: pickle.loads(pickle.dumps(t)),
                     'deepcopy': copy.deepcopy, 'copy': copy.copy}[op](tree)
            if op != 'copy':
                others.append((tree, xyz, given, ids))
            tree = other
            labels.add(op)
        labels |= verify(case, tree, xyz, given, ids, where)
    for old, xyz, given, ids in others:
        verify(case, old, xyz, given, ids, where + ' (original)')
    if not labels & {'query', 'value'}:
        return None
    return sorted(labels)


def verify(case, tree, xyz, given, ids, where):
    n = len(xyz)
    kind, k, columns = case['kind'], case['k'], case['columns']
    require(len(tree) == n, f'{where}: {len(tree)} points instead of {n}')
    require(bool(tree) == (n > 0), f'{where}: truth value')
    rng = np.random.default_rng(case['seed'])
    at, place = make_points({**case, 'duplicates': False}, rng, 4, columns,
                            turns=True)
    if n:
        # On a sample.
        pick = rng.integers(0, n)
        at[0] = given[pick, :columns]
        if columns == 3 or given[pick, 2] == 0:
            place[0] = xyz[pick]
        else:
            at, place = at[1:], place[1:]
    scale = max(np.abs(xyz).max() if n else 1.0, np.abs(place).max(), 1.0)
    tol = scale * (2e-13 if kind == 'f8' else 1.5e-6) + 1e-9
    labels = set()
    table = {int(v): row for row, v in enumerate(ids)}
    distance, value = tree.query(at, k=k, within=case['within'],
                                 num_threads=case['threads'])
    require(distance.shape == (len(at), k) and value.shape == distance.shape,
            f'{where}: shape {distance.shape}')
    surrounded = []
    for i, p in enumerate(place):
        exact = np.sqrt(((xyz - p)**2).sum(1))
        nearest = np.sort(exact)[:k]
        found = distance[i] >= 0
        m = int(found.sum())
        require(found[:m].all(), f'{where}: gaps in {distance[i]}')
        require((distance[i][m:] == -1).all() and (value[i][m:] == -1).all(),
                f'{where}: padding {distance[i]} {value[i]}')
        if m:
            check_neighbours(where, exact, nearest, distance[i][:m],
                             value[i][:m], table, tol, p)
            labels.add('query')
        if not case['within']:
            require(m == len(nearest), f'{where}: {m} neighbours at {p}, '
                    f'{len(nearest)} expected')
            continue
        state = inside(p, xyz, exact, nearest, tol)
        surrounded.append(state)
        if state is None:
            continue
        require(m == (len(nearest) if state else 0),
                f'{where}: {m} neighbours at {p}, '
                f'{"surrounded" if state else "not surrounded"} by {nearest}')
        labels.add('surrounded' if state else 'not surrounded')
    # The same with a radius and the coordinates of the neighbours.
    typical = float(np.median(np.sqrt(((xyz[:40, None] - xyz[None, :40])**2
                                       ).sum(2)))) if n else 1.0
    radius = None if case['radius'] is None else max(
        case['radius'] * typical, 1e-3)
    points, value = tree.value(at, radius=radius, k=k, within=case['within'],
                               num_threads=case['threads'])
    require(points.shape == (len(at), k, columns) and
            value.shape == (len(at), k), f'{where}: shape {points.shape}')
    for i, p in enumerate(place):
        exact = np.sqrt(((xyz - p)**2).sum(1))
        nearest = np.sort(exact)[:k]
        sure = nearest if radius is None else nearest[nearest < radius - tol]
        maybe = nearest if radius is None else nearest[nearest <= radius + tol]
        m = int((~np.isnan(value[i])).sum())
        require(not np.isnan(value[i][:m]).any() and
                not np.isnan(points[i][:m]).any() and
                np.isnan(points[i][m:]).all(),
                f'{where}: gaps in {points[i]} {value[i]}')
        if not case['within']:
            require(len(sure) <= m <= len(maybe),
                    f'{where}: {m} neighbours within {radius} of {p}, '
                    f'{nearest}')
        else:
            if len(sure) == len(maybe):
                state = inside(p, xyz, exact, sure, tol)
                if state is not None:
                    require(m == (len(sure) if state else 0),
                            f'{where}: {m} neighbours within {radius} of {p}, '
                            f'surrounded: {state}')
        if not m:
            continue
        rows = [table.get(int(v)) for v in value[i][:m]]
        require(None not in rows and len(set(rows)) == m,
                f'{where}: values {value[i]}')
        check_neighbours(where, exact, nearest[:max(m, 1)], exact[rows],
                         value[i][:m], table, tol, p)
        labels.add('value')
        for row, point in zip(rows, points[i][:m]):
            expected = given[row]
            if case['ecef']:
                require(np.array_equal(point, expected[:columns]),
                        f'{where}: neighbour at {point}, given {expected}')
                continue
            a, f = SPHEROIDS[case['spheroid']] or (places.A, places.F)
            alt = point[2] if columns == 3 else expected[2]
            back = places.to_ecef(point[0], point[1], alt, a, f)
            require(np.abs(back - xyz[row]).max() <= 4 * tol + 1e-6,
                    f'{where}: neighbour at {point}, given {expected}')
    # Borders.
    bounds = tree.bounds()
    if not n:
        require(bounds == (), f'{where}: bounds {bounds} of an empty index')
    elif not case['ecef']:
        degrees = tol / 1e5 * 10
        lon = (given[:, 0] + 180) % 360 - 180
        low, high = bounds
        require(abs(low[1] - given[:, 1].min()) < degrees and
                abs(high[1] - given[:, 1].max()) < degrees,
                f'{where}: bounds {bounds}')
        require(abs(low[2] - given[:, 2].min()) < 4 * tol + 1e-6 and
                abs(high[2] - given[:, 2].max()) < 4 * tol + 1e-6,
                f'{where}: bounds {bounds}')
        if (np.abs(given[:, 1]) < 85).all() and (np.abs(lon) < 179.9).all():
            require(abs(low[0] - lon.min()) < 20 * degrees and
                    abs(high[0] - lon.max()) < 20 * degrees,
                    f'{where}: bounds {bounds}, longitudes {lon}')
    if n <= k:
        labels -= {'query', 'value'}
    return labels


def check_neighbours(where, exact, nearest, distance, value, table, tol, p):
    m = len(distance)
    require(m <= len(nearest), f'{where}: too many neighbours at {p}')
    rows = [table.get(int(v)) for v in value]
    require(None not in rows, f'{where}: {value} are not in the index')
    require(len(set(rows)) == m, f'{where}: neighbours repeated {value}')
    require(np.abs(exact[rows] - distance).max() <= tol,
            f'{where}: distances {distance} of {value} at {p}, exact ones '
            f'{exact[rows]}')
    require(np.abs(distance - nearest[:m]).max() <= 2 * tol,
            f'{where}: distances {distance} at {p}, nearest {nearest}')
    require((np.diff(distance) >= -2 * tol).all(),
            f'{where}: distances not sorted {distance}')


def inside(p, xyz, exact, nearest, tol):
    """True if the neighbours surround the point, None if ambiguous."""
    if not len(nearest):
        return False
    chosen = xyz[exact <= nearest[-1] + 2 * tol]
    if len(chosen) != len(nearest):
        # Ties: which ones are used is free.
        return None
    low, high = chosen.min(0), chosen.max(0)
    if (np.abs(p - low) <= 2 * tol).any() or (
            np.abs(p - high) <= 2 * tol).any():
        return None
    return bool(((p > low) & (p < high)).all())


FACETS = [
    Facet('history', history(), run, 900, 2,
          'Histories of operations, queries after each one.'),
    Facet('many', history(big=True), run, 250, 2, 'Hundreds of points.'),
    defaults.facet('R01'),
    large.facet('R01'),
]
