"""R04: the longitude/latitude index agrees with geodesic distances."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pyinterp import geodetic
from vf import defaults, geodesy, large, places, scattered
from vf.engine import Facet, require

PARTS = ['rtree', 'geodetic']
RULE = """Histories of up to six bulk loads, insertions, clears, copies and
pickles on longitude/latitude indexes of three spheroids (up to 200 points in
narrow or continental regions, polar caps included, duplicates, any turn of
longitude), queried after each operation; then inverse distance weighting,
window and radial functions with every function and option. A separate facet
spreads the points over the date line or a hemisphere. Large inputs and
structures of up to tens of thousands of items. Non-trivial: more points than
neighbours, at least two neighbours. The oracle is an exhaustive search with
geodesics computed by quadrature."""
ASSUMPTIONS = [
    'Distances are those of Andoyer, within 3e-5 of the geodesic; neighbours '
    'whose distances differ by less, or by less than the flattening that the '
    'search neglects, are interchangeable.',
    'A point is surrounded when it lies in the longitude/latitude box of its '
    'neighbours, none of them being a pole.',
    'Formulas are applied to the neighbours that the query returns, themselves '
    'compared with the exhaustive search.',
]
SPHEROIDS = [None, (6378136.3, 1 / 298.257), (6370997.0, 0.0)]

narrow = st.one_of(
    st.sampled_from([[30.0, 86.0, 4.0], [-60.0, -88.0, 2.0], [0.0, 0.0, 1.0],
                     [10.0, 45.0, 0.25], [-20.0, 70.0, 20.0],
                     [0.0, 0.0, 35.0], [100.0, -50.0, 35.0]]),
    st.tuples(st.integers(-120, 120).map(float),
              st.integers(-50, 50).map(float),
              st.sampled_from([0.5, 3.0, 10.0, 35.0])).map(list))
across = st.one_of(
    st.sampled_from([[180.0, 0.0, 10.0], [0.0, 0.0, 180.0],
                     [-175.0, 80.0, 10.0],
                     [0.0, 0.0, 80.0], [90.0, -40.0, 70.0]]),
    st.tuples(st.sampled_from([170.0, 180.0, -170.0]),
              st.integers(-80, 80).map(float),
              st.sampled_from([20.0, 60.0, 179.0])).map(list))


@st.composite
def history(draw, region, formula=False):
    ops = []
    for _ in range(draw(st.integers(1, 2 if formula else 6))):
        op = draw(st.sampled_from(
            ['packing', 'packing', 'insert', 'insert', 'insert', 'clear',
             'pickle', 'deepcopy', 'copy']))
        if not ops or (formula and op == 'clear'):
            op = draw(st.sampled_from(['packing', 'insert']))
        ops.append([op, draw(st.sampled_from(
            [0, 1, 2, 3, 5, 8, 16, 17, 40, 100])),
                    draw(st.integers(0, 2**16))])
    case = {'ops': ops, 'region': draw(region),
            'spheroid': draw(st.integers(0, 2)),
            'duplicates': not formula and draw(st.booleans()),
            'k': draw(st.integers(1, 12)), 'seed': draw(st.integers(0, 999)),
            'within': draw(st.booleans()),
            'threads': draw(st.sampled_from([1, 1, 1, 2]))}
    if formula:
        op = case['formula'] = draw(st.sampled_from(['idw', 'rbf', 'window']))
        case['radius'] = draw(st.sampled_from([None, None, 0.3, 1.0, 3.0]))
        case['constant'] = draw(st.booleans())
        if op == 'idw':
            case['p'] = draw(st.integers(1, 4))
        elif op == 'rbf':
            name = case['name'] = draw(st.sampled_from(scattered.RBF))
            case['arg'] = None if name not in scattered.ADJUSTABLE else draw(
                st.sampled_from([None, None, 0.3, 1.0, 4.0]))
            case['smooth'] = draw(st.sampled_from([0, 0, 0.1, 2.0]))
        else:
            name = case['name'] = draw(st.sampled_from(scattered.WINDOWS))
            case['arg'] = draw({
                'gaussian': st.sampled_from([0.2, 1.0, 3.0]),
                'lanczos': st.sampled_from([None, 1, 2, 3]),
                'parzen': st.sampled_from([None, 0, 0.2, 1.0])}.get(
                    name, st.none()))
    return case


def build(case, where):
    """Replay the history, yield the index and its content."""
    spheroid = SPHEROIDS[case['spheroid']]
    tree = geodetic.RTree(geodetic.Spheroid(spheroid) if spheroid else None)
    lon = lat = value = np.zeros(0)
    serial, others = 0, []
    for op, count, seed in case['ops']:
        rng = np.random.default_rng(seed)
        if op in ('packing', 'insert'):
            x, y = places.draw_places(rng, count, case['region'], True)
            if case['duplicates'] and count > 2:
                x[:count // 3], y[:count // 3] = x[-1], y[-1]
            z = np.arange(serial, serial + count) * 1.0
            serial += count
            kept = x.copy(), y.copy(), z.copy()
            getattr(tree, op)(x, y, z)
            require(all(np.array_equal(u, v) for u, v in zip(
                kept, (x, y, z))), f'{where}: arguments modified by {op}')
            if op == 'packing':
                lon, lat, value = x, y, z
            else:
                lon, lat, value = (np.concatenate(v) for v in (
                    (lon, x), (lat, y), (value, z)))
        elif op == 'clear':
            tree.clear()
            lon, lat, value = lon[:0], lat[:0], value[:0]
        else:
            other = {'pickle': lambda t: pickle.loads(pickle.dumps(t)),
                     'deepcopy': copy.deepcopy, 'copy': copy.copy}[op](tree)
            require(op == 'copy' or type(other) is type(tree), f'{where}: {op} is '
                    f'a {type(other)}')
            if op != 'copy':
                others.append((tree, lon, lat, value))
            tree = other
        yield tree, lon, lat, value
    for item in others:
        yield item


def tolerance(d):
    # Andoyer is not accurate for nearly antipodal points.
    return np.where(d < 1.8e7, 3e-5, 1e-3) * d + np.minimum(
        0.2, 0.05 / np.maximum(d, 1e-3))


def surrounded(x, y, lon, lat):
    """True if the point is in the box of others, None if ambiguous."""
    if not len(lon):
        return False
    if max(abs(y), np.abs(lat).max()) == 90:
        return None  # The longitude of a pole is not determined.
    shift = (lon - x + 180) % 360 - 180
    if shift.max() - shift.min() > 170 or np.abs(shift).max() > 170:
        return None
    return scattered.surrounded(np.array([0.0, y]),
                                np.stack([shift, lat], 1), 1e-9)


def run_history(case):
    where = f'{case}'
    labels = set()
    for tree, lon, lat, value in build(case, where):
        labels |= verify(case, tree, lon, lat, value, where)
    return sorted(labels) or None


def verify(case, tree, lon, lat, value, where):
    n, k = len(lon), case['k']
    require(len(tree) == n and bool(tree) == (n > 0),
            f'{where}: {len(tree)} points instead of {n}')
    a, f = SPHEROIDS[case['spheroid']] or (geodesy.A, geodesy.F)
    rng = np.random.default_rng(case['seed'])
    x, y = places.draw_places(rng, 6, case['region'], True)
    if n:
        pick = rng.integers(0, n)
        x[0], y[0] = lon[pick] + 360, lat[pick]
    distance, found = tree.query(x, y, k=k, within=case['within'],
                                 num_threads=case['threads'])
    require(distance.shape == found.shape == (6, k),
            f'{where}: shape {distance.shape}')
    labels = set()
    if not n:
        require((distance == -1).all() and (found == -1).all(),
                f'{where}: neighbours of an empty index')
        return labels
    exact = geodesy.distance(lon[None], lat[None], x[:, None], y[:, None],
                             a, f)
    table = {v: i for i, v in enumerate(value.tolist())}
    slack = 2 * abs(f - geodesy.F) + 6e-5
    for i in range(6):
        m = int((distance[i] >= 0).sum())
        about = f'{where}: {distance[i].tolist()} {found[i].tolist()} at ' \
                f'{x[i]}, {y[i]}'
        require((distance[i][:m] >= 0).all() and (
            distance[i][m:] == -1).all() and (found[i][m:] == -1).all(),
                f'{about}: padding')
        full = min(n, k)
        order = np.sort(np.where(np.isnan(exact[i]), np.inf, exact[i]))
        if not case['within']:
            require(m == full, f'{about}: {full} expected')
        elif m == 0:
            # The neighbours that do not surround the point are unknown: use
            # the exhaustive search, if it is not ambiguous.
            chosen = scattered.neighbours(
                exact[i], k, slack * order[full - 1] + 1)
            if chosen is not None and np.isfinite(order).all():
                state = surrounded(x[i], y[i], lon[chosen], lat[chosen])
                if state:
                    require(False, f'{about}: surrounded',
                            missed(case, order[full - 1]))
                if state is not None:
                    labels.add('not surrounded')
            continue
        else:
            require(m == full, f'{about}: {full} expected')
        rows = [table.get(v) for v in found[i][:m].tolist()]
        require(None not in rows and len(set(rows)) == m,
                f'{about}: not the samples')
        mine = exact[i][rows]
        if np.isfinite(mine).all():
            require((np.abs(mine - distance[i][:m]) <= tolerance(mine)).all(),
                    f'{about}: exact distances {mine.tolist()}')
            tol = slack * mine + 1.0 + tolerance(mine)
            require((np.sort(mine) - order[:m] <= np.sort(tol)).all(),
                    f'{about}: nearest {order[:m].tolist()}',
                    missed(case, order[m - 1]))
            require((np.diff(mine) >= -2 * tol[1:]).all(),
                    f'{about}: not sorted',
                    missed(case, order[m - 1]))
        if case['within']:
            state = surrounded(x[i], y[i], lon[rows], lat[rows])
            require(state is not False, f'{about}: not surrounded')
            labels.add('surrounded')
        if n > k > 1:
            labels.add('neighbours')
    return labels


def missed(case, reach):
    """Identify the searches that Boost gets wrong."""
    lon, _, extent = case['region']
    if abs(lon) + extent >= 180:
        return 'date-line'
    return 'far' if extent > 60 and reach > 9e6 else None


def run_formula(case):
    where = f'{case}'
    for tree, lon, lat, value in build(case, where):
        pass
    n, k, within = len(lon), case['k'], case['within']
    if not n:
        return None
    # Replace the serial numbers by a field.
    rng = np.random.default_rng(case['seed'])
    keep = np.unique(np.stack([lon, lat], 1), axis=0, return_index=True)[1]
    lon, lat = lon[keep], lat[keep]
    field = rng.normal(size=len(lon))
    if case['constant']:
        field[:] = field[0]
    field += np.arange(len(lon)) * 1e-12
    spheroid = SPHEROIDS[case['spheroid']]
    a, f = spheroid or (geodesy.A, geodesy.F)
    system = geodetic.Spheroid(spheroid) if spheroid else None
    tree = geodetic.RTree(system)
    tree.packing(lon, lat, field)
    x, y = places.draw_places(rng, 6, case['region'], True)
    x[0], y[0] = lon[0], lat[0]
    for i in (1, 2):
        p, q = rng.integers(0, len(lon), 2)
        step = (lon[q] - lon[p] + 180) % 360 - 180
        x[i], y[i] = lon[p] + step / 2, (lat[p] + lat[q]) / 2
    spread = float(geodesy.distance(lon, lat, lon[0], lat[0]).mean())
    if not np.isfinite(spread):
        return None
    spread = max(spread, 100.0)
    radius = None if case['radius'] is None else case['radius'] * spread
    options = {'radius': radius, 'k': k, 'within': within,
               'num_threads': case['threads']}
    op, arg = case['formula'], case.get('arg')
    if op == 'idw':
        result, number = tree.inverse_distance_weighting(x, y, p=case['p'],
                                                         **options)
    elif op == 'rbf':
        arg = None if arg is None else arg * spread
        result, number = tree.radial_basis_function(
            x, y, rbf=case['name'], epsilon=arg, smooth=case['smooth'],
            **options)
    else:
        if arg is not None and case['name'] in ('gaussian', 'parzen'):
            arg *= spread
        result, number = tree.window_function(x, y, wf=case['name'], arg=arg,
                                              **options)
    distance, found = tree.query(x, y, k=k, within=False, num_threads=1)
    table = {v: i for i, v in enumerate(field.tolist())}
    labels = set()
    for i in range(len(x)):
        m = min(k, len(lon))
        rows = np.array([table[v] for v in found[i][:m].tolist()])
        d, v = distance[i][:m], field[rows]
        got, used = float(result[i]), int(number[i])
        about = f'{where}: {got} with {used} neighbours at {x[i]}, {y[i]}'
        exact = geodesy.distance(x[i], y[i], lon[rows], lat[rows], a, f)
        if np.isfinite(exact).all():
            require((np.abs(exact - d) <= tolerance(exact)).all(),
                    f'{about}: distances {d}, exact {exact}')
        if radius is not None and (np.abs(d - radius) <= 1e-9 * radius).any():
            continue
        kept = np.ones(m, bool) if radius is None else d <= radius
        if within:
            sub = rows[kept] if op == 'rbf' else rows
            state = surrounded(x[i], y[i], lon[sub], lat[sub])
            if state is None:
                continue
            if not state:
                require(np.isnan(got) and used == 0,
                        f'{about}, not surrounded')
                labels.add('not surrounded')
                continue
        if op == 'idw' and d[0] < 1e-6:
            require(got == v[0], f'{about}, stored {v[0]}')
            labels.add('sample')
            continue
        d, v, rows = d[kept], v[kept], rows[kept]
        if not len(d):
            require(np.isnan(got) and used == 0, f'{about}, no neighbour')
            labels.add('none')
            continue
        bound = np.abs(v).max() + 1e-30
        if op == 'idw':
            w = (d.min() / d)**case['p']
            expected = float(w @ v / w.sum())
            error = 1e-11
        elif op == 'rbf':
            if len(d) < 2:
                continue
            between = geodetic.coordinate_distances(
                np.repeat(lon[rows], len(d)), np.repeat(lat[rows], len(d)),
                np.tile(lon[rows], len(d)), np.tile(lat[rows], len(d)),
                wgs=system, strategy='andoyer').reshape(len(d), len(d))
            expected, cond = scattered.rbf(case['name'], between, d, v, arg,
                                           case['smooth'])
            if expected is None:
                continue
            # Rounding of the distances.
            noise = 1e-13 + 0.02 / min(
                between[between > 0].min(initial=1e9), d.max())**2
            error = cond / bound * noise + 1e-11
            if error > 1e-4:
                continue
        else:
            reach = radius if radius is not None else float(d.max())
            if reach < 1e-3 or (np.diff(d) < 0).any():
                continue  # Order of the search, on another spheroid.
            w = np.array([scattered.window(case['name'], min(t, reach), reach,
                                           arg) for t in d])
            if case['name'] == 'lanczos':
                w[d > (arg or 1) * reach] = 0
            total, top = w.sum(), max(np.abs(w).sum(), 1e-3)
            if (np.abs(w) == 0).all():
                require(np.isnan(got) or abs(total) < 1e-14,
                        f'{about}: null weights')
                continue
            if abs(total) < 1e-3 * top or top < 1e-2:
                continue
            if case['name'] == 'parzen' and (
                    np.abs(d - (2 * reach + (arg or 0)) / 4) < 1e-6).any():
                continue
            expected = float(w @ v / total)
            error = (top / abs(total))**2 * 1e-11
        require(abs(got - expected) <= error * bound,
                f'{about} instead of {expected} (distances {d}, values {v})')
        require(used == len(d), f'{about}: {len(d)} are used')
        if op != 'rbf' and case['constant']:
            require(abs(got - v[0]) <= error * bound + 2e-10,
                    f'{about}: constant {v[0]}')
        if len(d) > 1:
            labels.add(case.get('name', f'p={case.get("p")}'))
    return sorted(labels) or None


FACETS = [
    Facet('history', history(narrow), run_history, 1200, 2,
          'Histories of operations, queries after each one.'),
    Facet('global', history(across), run_history, 300, 1,
          'Points over the date line or on a hemisphere.'),
    Facet('formula', history(narrow, formula=True), run_formula, 4000, 3,
          'Interpolations from the neighbours.'),
    defaults.facet('R04'),
    large.facet('R04'),
]
