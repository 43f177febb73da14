"""R02: interpolation of scattered data equals its formula."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
from vf import defaults, large, places, scattered
from vf.engine import Facet, require

PARTS = ['rtree', 'geodetic']
RULE = """Indexes of 0 to 60 samples of both precisions, geodetic (poles and
date line included) or Cartesian, points anywhere around them and on samples,
1 to 12 neighbours, with and without radius, surrounded or not, every power,
every window function and radial function with and without its optional
arguments, noisy, constant and linear fields. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two
neighbours. The oracle selects the neighbours exhaustively and evaluates the
published formula in double precision."""
ASSUMPTIONS = [
    'Neighbours at the same distance, points on the border of the box of their '
    'neighbours or of the radius, ill-conditioned systems and windows whose '
    'weights cancel are not compared.',
    'On a sample the inverse distance weighting returns its value, whatever '
    'the number of neighbours it announces.',
]


@st.composite
def case_strategy(draw, op):
    case = {
        'op': op, 'kind': draw(st.sampled_from(['f8', 'f8', 'f4'])),
        'ecef': draw(st.booleans()), 'region': draw(places.regions),
        'count': draw(st.sampled_from([0, 1, 2, 3, 8, 20, 40, 60])),
        'columns': draw(st.integers(2, 3)),
        'k': draw(st.integers(1, 12)), 'seed': draw(st.integers(0, 2**16)),
        'radius': draw(st.sampled_from([None, None, 0.2, 0.5, 1.0, 3.0])),
        'within': draw(st.booleans()),
        'field': draw(st.sampled_from(['noise', 'constant', 'linear'])),
        'threads': draw(st.sampled_from([1, 1, 1, 2])),
        'named': draw(st.booleans()),
        # Size of the plane in units: the formulas are not all homogeneous.
        'shrink': draw(st.sampled_from([0, 0, 10, 12, 16])),
    }
    if op == 'idw':
        case['p'] = draw(st.integers(1, 4))
    elif op == 'rbf':
        case['kind'] = 'f8'
        case['name'] = draw(st.sampled_from(scattered.RBF))
        case['epsilon'] = None if case['name'] not in \
            scattered.ADJUSTABLE else draw(
                st.sampled_from([None, None, 0.3, 1.0, 4.0]))
        case['smooth'] = draw(st.sampled_from([0, 0, 0, 0.1, 2.0]))
    else:
        case['name'] = draw(st.sampled_from(scattered.WINDOWS))
        case['arg'] = {'gaussian': st.sampled_from([0.2, 1.0, 3.0]),
                       'lanczos': st.sampled_from([None, 1, 2, 3]),
                       'parzen': st.sampled_from([None, 0, 0.2, 1.0])}.get(
                           case['name'], st.none())
        case['arg'] = draw(case['arg'])
    return case


def shrinkage(case):
    return 2.0**-case.get('shrink', 0) if case['ecef'] else 1.0


def make(case):
    rng = np.random.default_rng(case['seed'])
    n, kind = case['count'], case['kind']
    shrink = shrinkage(case)

    def points(count):
        lon, lat = places.draw_places(rng, count, case['region'])
        alt = np.round(rng.uniform(0, 1, count) * 5000)
        given = np.stack([lon, lat, alt], 1)
        if case['columns'] == 2:
            given[:, 2] = 0
        if case['ecef']:
            given = np.round(given * [1000, 1000, 1] * 4).astype(
                kind).astype('f8') * shrink
            return given, given
        return given, places.to_ecef(*given.T)

    given, xyz = points(n)
    if n:
        # Without duplicates.
        _, keep = np.unique(np.round(xyz / shrink, 1), axis=0, return_index=True)
        given, xyz = given[np.sort(keep)], xyz[np.sort(keep)]
    values = rng.normal(size=len(xyz))
    if case['field'] == 'constant':
        values = np.full(len(xyz), values[0] if len(xyz) else 0.0)
    elif case['field'] == 'linear' and len(xyz):
        values = (xyz - xyz.mean(0)) @ np.array([1.0, -2.0, 0.5]) / (
            np.abs(xyz - xyz.mean(0)).max() + shrink)
    values = values.astype(kind).astype('f8')
    at, place = points(6)
    if len(xyz):
        at[0], place[0] = given[0], xyz[0]
        # Between samples.
        for i in range(1, 4):
            a, b = rng.integers(0, len(xyz), 2)
            if case['ecef']:
                at[i] = ((given[a] + given[b]) / 2).astype(kind)
                place[i] = at[i]
            else:
                at[i] = np.round((given[a] + given[b]) * 32) / 64
                place[i] = places.to_ecef(*at[i])
    columns = case['columns']
    return (given[:, :columns].astype(kind), xyz, values,
            at[:, :columns].astype(kind), place)


def run(case):
    given, xyz, values, at, place = make(case)
    kind, op, k, within = case['kind'], case['op'], case['k'], case['within']
    n = len(xyz)
    tree = pyinterp.RTree(dtype=np.dtype(kind), ecef=case['ecef'])
    tree.packing(given, values.astype(kind))
    where = f'{case}'
    size = max(np.abs(xyz).max() if n else 1, np.abs(place).max(), 1.0)
    eps = 2.5e-16 if kind == 'f8' else 1.2e-7
    tol = 20 * eps * size + 1e-9
    spread = float(np.median(np.linalg.norm(xyz - xyz[0], axis=1))
                   ) if n > 1 else 1000.0
    spread = max(spread, shrinkage(case))
    radius = None
    if case['radius'] is not None:
        radius = float(np.float32(case['radius'] * spread))
    options = {'radius': radius, 'k': k, 'within': within,
               'num_threads': case['threads']}
    epsilon = arg = None
    if op == 'idw':
        options['p'] = case['p']
        result, number = tree.inverse_distance_weighting(at, **options)
    elif op == 'rbf':
        if case['epsilon'] is not None:
            epsilon = case['epsilon'] * spread
        smooth = case['smooth']
        result, number = tree.radial_basis_function(
            at, rbf=None if case['name'] == 'multiquadric' and case['named']
            else case['name'], epsilon=epsilon, smooth=smooth, **options)
    else:
        arg = case['arg']
        if arg is not None and case['name'] in ('gaussian', 'parzen'):
            arg = float(np.float32(arg * spread))
        result, number = tree.window_function(
            at, wf=None if case['name'] == 'blackman' and case['named'] else
            case['name'], arg=arg, **options)
    require(result.shape == number.shape == (len(at), ),
            f'{where}: shapes {result.shape} {number.shape}')
    labels = set()
    for i, p in enumerate(place):
        exact = np.sqrt(((xyz - p)**2).sum(1))
        got, used = float(result[i]), int(number[i])
        about = f'{where}: {got} with {used} neighbours at {at[i].tolist()}'
        chosen = scattered.neighbours(exact, k, 4 * tol)
        if chosen is None:
            continue
        if radius is not None and (np.abs(exact[chosen] - radius) <= 4 * tol
                                   ).any():
            continue
        # The radial functions drop the samples out of reach before looking
        # whether the others surround the point.
        kept = chosen if radius is None else chosen[exact[chosen] <= radius]
        if within:
            state = scattered.surrounded(
                p, xyz[kept if op == 'rbf' else chosen], 4 * tol)
            if state is None:
                continue
            if not state:
                require(np.isnan(got) and used == 0, f'{about}, not '
                        'surrounded')
                labels.add('not surrounded')
                continue
        on_sample = len(chosen) and exact[chosen[0]] <= tol
        if op == 'idw' and on_sample:
            if exact[chosen[0]] == 0 or kind == 'f8':
                if not np.isclose(got, values[chosen[0]], rtol=1e-6,
                                  atol=0):
                    # Not exactly on the sample for the index.
                    require(exact[chosen[0]] > 0 or size * eps > 1e-8,
                            f'{about}, stored {values[chosen[0]]}')
                require(abs(got - values[chosen[0]]) <= 1e-4 * (
                    np.abs(values).max() + 1), f'{about}, stored '
                        f'{values[chosen[0]]}')
                labels.add('sample')
            continue
        if not len(kept):
            require(np.isnan(got) and used == 0, f'{about}, no neighbour')
            labels.add('none')
            continue
        d, v = exact[kept], values[kept]
        bound = np.abs(v).max() + 1e-30
        if op == 'idw':
            w = (d.min() / d)**case['p']
            expected = float(w @ v / w.sum())
            error = 1e-11 if kind == 'f8' else 1e-4
            error += 2 * case['p'] * tol / d.min()
            require(v.min() - error * bound <= got <= v.max() + error * bound,
                    f'{about} out of the range of {v}')
        elif op == 'rbf':
            if len(kept) < 2:
                continue
            between = np.linalg.norm(xyz[kept][:, None] - xyz[kept][None],
                                     axis=2)
            expected, cond = scattered.rbf(case['name'], between, d, v,
                                           epsilon, smooth)
            if expected is None:
                continue
            error = (cond / bound) * (1e-14 + 10 * tol / max(
                d.max(), shrinkage(case)))
            if error > 1e-3:
                continue
            error += 1e-12
        else:
            reach = radius if radius is not None else float(d.max())
            if reach <= tol:
                continue
            w = np.array([scattered.window(case['name'], min(x, reach), reach,
                                           arg) for x in d])
            total = w.sum()
            if case['name'] == 'lanczos':
                edge = (arg or 1) * reach
                w[d > edge] = 0
                total = w.sum()
            single = 1e-14 if kind == 'f8' else 2e-6
            top = max(np.abs(w).sum(), 1e-3)
            if (np.abs(w) == 0).all():
                require(np.isnan(got) or abs(total) < single,
                        f'{about}: null weights')
                continue
            if abs(total) < 1e-3 * top or top < 1e-2:
                continue
            if case['name'] == 'parzen' and (
                    np.abs(d - (2 * reach + (arg or 0)) / 4) < 4 * tol).any():
                continue
            expected = float(w @ v / total)
            error = (top / abs(total))**2 * (
                single + 10 * tol / reach) * 20
            if error > 1e-2:
                continue
            if (w >= 0).all():
                require(v.min() - error * bound <= got <=
                        v.max() + error * bound,
                        f'{about} out of the range of {v}')
        require(abs(got - expected) <= error * bound,
                f'{about} instead of {expected} (distances {d}, values {v}), '
                f'error {error * bound}')
        require(used == len(kept), f'{about}: {len(kept)} are used')
        if op == 'rbf' and on_sample and not smooth:
            require(abs(got - v[0]) <= 2 * error * bound,
                    f'{about}, stored {v[0]}')
            labels.add('sample')
        if op != 'rbf' and case['field'] == 'constant':
            require(abs(got - v[0]) <= error * bound, f'{about}: constant '
                    f'{v[0]}')
        if len(kept) > 1:
            labels.add(case.get('name', f'p={case.get("p")}'))
    return sorted(labels) or None


# -- arguments --------------------------------------------------------------
@st.composite
def argument_case(draw):
    return {'op': draw(st.sampled_from(['rbf', 'window'])),
            'name': draw(st.sampled_from(
                sorted(set(scattered.RBF) | set(scattered.WINDOWS)) +
                ['unknown', 'Gaussian', ''])),
            'arg': draw(st.sampled_from([None, -1.0, 0.0, 0.5, 2.0]))}


def run_argument(case):
    tree = pyinterp.RTree()
    rng = np.random.default_rng(3)
    xy = rng.uniform(-5, 5, (30, 2))
    tree.packing(xy, rng.normal(size=30))
    name, arg = case['name'], case['arg']
    at = xy[:3] + 0.125
    if case['op'] == 'rbf':
        def call():
            return tree.radial_basis_function(at, rbf=name, epsilon=arg,
                                              within=False)
        valid = not name or name in scattered.RBF
        if arg is not None and name and name not in scattered.ADJUSTABLE:
            valid = False
    else:
        def call():
            return tree.window_function(at, wf=name, arg=arg, within=False)
        valid = not name or name in scattered.WINDOWS
        if name == 'lanczos':
            valid = arg is None or arg >= 1
        elif name == 'parzen':
            valid = arg is None or arg >= 0
        elif name == 'gaussian':
            valid = arg is not None
        elif arg is not None:
            valid = False
    try:
        call()
    except ValueError:
        require(not valid, f'{case}: refused')
        return 'refused'
    require(valid, f'{case}: accepted')
    return 'accepted'


FACETS = [
    Facet('idw', case_strategy('idw'), run, 3000, 1,
          'Inverse distance weighting.'),
    Facet('window', case_strategy('window'), run, 4000, 2,
          'Window functions.'),
    Facet('rbf', case_strategy('rbf'), run, 3000, 2,
          'Radial basis functions.'),
    Facet('arguments', argument_case(), run_argument, 100, 1,
          'Names and optional arguments.'),
    defaults.facet('R02'),
    large.facet('R02'),
]
