"""R03: kriging solves the kriging system of its neighbours."""
import numpy as np
from hypothesis import strategies as st

import pyinterp
from checks import R02
from vf import defaults, large, places, scattered
from vf.engine import Facet, require

PARTS = ['rtree', 'geodetic']
RULE = """Indexes of 0 to 60 samples in double and single precision, geodetic
(altitudes, poles and date line included) or Cartesian, points around them and
on samples, 1 to 12 neighbours, with and without radius, surrounded or not,
every covariance model with several scales and magnitudes, noisy, constant and
linear fields. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two neighbours and a scale for which the
system is well-conditioned. The oracle solves the system of the neighbours found
exhaustively; other facets check the linearity and the stored values."""
ASSUMPTIONS = [
    'Systems with a condition number above 1e10 (1e4 in single precision), '
    'ties and points on the border of the box of their neighbours are not '
    'compared.',
    'The spherical and Cauchy models are the usual ones, 1 - 3d/2r + d3/2r3 '
    'and 1 / (1 + (d/r)2).',
    'The interface does not offer any drift.',
]


@st.composite
def case_strategy(draw):
    return {
        'kind': draw(st.sampled_from(['f8', 'f8', 'f8', 'f4'])),
        'ecef': draw(st.booleans()), 'region': draw(places.regions),
        'count': draw(st.sampled_from([0, 1, 2, 3, 8, 20, 40, 60])),
        'columns': draw(st.integers(2, 3)),
        'k': draw(st.integers(1, 12)), 'seed': draw(st.integers(0, 2**16)),
        'radius': draw(st.sampled_from([None, None, 0.2, 0.5, 1.0, 3.0])),
        'within': draw(st.booleans()),
        'field': draw(st.sampled_from(['noise', 'constant', 'linear'])),
        'threads': draw(st.sampled_from([1, 1, 1, 2])),
        'name': draw(st.sampled_from(scattered.COVARIANCES)),
        'sigma': draw(st.sampled_from([1.0, 0.25, 3.0, 100.0])),
        'scale': draw(st.sampled_from([0.05, 0.2, 0.5, 1.0, 3.0])),
        'named': draw(st.booleans())}


def build(case):
    given, xyz, values, at, place = R02.make(case)
    n = len(xyz)
    tree = pyinterp.RTree(dtype=np.dtype(case['kind']), ecef=case['ecef'])
    tree.packing(given, values.astype(case['kind']))
    spread = float(np.median(np.linalg.norm(xyz - xyz[0], axis=1))
                   ) if n > 1 else 1000.0
    spread = max(spread, 1.0)
    alpha = float(np.float32(case['scale'] * spread))
    radius = None if case['radius'] is None else float(
        np.float32(case['radius'] * spread))
    name = case['name']
    options = {'covariance': None if case['named'] and name == 'matern_32'
               else name, 'sigma': case['sigma'], 'alpha': alpha,
               'radius': radius, 'k': case['k'], 'within': case['within'],
               'num_threads': case['threads']}
    return tree, given, xyz, values, at, place, options


def run(case):
    tree, _, xyz, values, at, place, options = build(case)
    kind, k, within = case['kind'], case['k'], case['within']
    radius, alpha = options['radius'], options['alpha']
    where = f'{case}'
    n = len(xyz)
    size = max(np.abs(xyz).max() if n else 1, np.abs(place).max(), 1.0)
    eps = 2.5e-16 if kind == 'f8' else 1.2e-7
    tol = 20 * eps * size + 1e-9
    result, number = tree.universal_kriging(at, **options)
    labels = set()
    for i, p in enumerate(place):
        exact = np.sqrt(((xyz - p)**2).sum(1))
        got, used = float(result[i]), int(number[i])
        about = f'{where}: {got} with {used} neighbours at {at[i].tolist()}'
        chosen = scattered.neighbours(exact, k, 4 * tol)
        if chosen is None:
            continue
        kept = chosen
        if radius is not None:
            if (np.abs(exact[chosen] - radius) <= 4 * tol).any():
                continue
            kept = chosen[exact[chosen] <= radius]
        if within:
            state = scattered.surrounded(p, xyz[kept], 4 * tol)
            if state is None:
                continue
            if not state:
                require(np.isnan(got) and used == 0,
                        f'{about}, not surrounded')
                labels.add('not surrounded')
                continue
        if not len(kept):
            require(np.isnan(got) and used == 0, f'{about}, no neighbour')
            labels.add('none')
            continue
        require(used == len(kept), f'{about}: {len(kept)} are used')
        d, v = exact[kept], values[kept]
        between = np.linalg.norm(xyz[kept][:, None] - xyz[kept][None], axis=2)
        if case['name'] in ('linear', 'spherical') and (
                np.abs(np.append(between, d) - alpha) < 8 * tol).any():
            continue
        expected, cond = scattered.kriging(case['name'], between, d, v,
                                           case['sigma'], alpha)
        bound = np.abs(v).max() + 1e-30
        if expected is None:
            continue
        error = cond * (40 * eps + 40 * tol / alpha)
        if error > 1e-2 * bound:
            continue
        require(abs(got - expected) <= error + 4 * eps * bound,
                f'{about} instead of {expected} (distances {d}, values {v})')
        if d[0] <= tol and (kind == 'f8'):
            require(abs(got - v[0]) <= error + 1e-9 * bound,
                    f'{about}, stored {v[0]}')
            labels.add('sample')
        if len(kept) > 1:
            labels.add(case['name'])
    if not labels - {'sample', 'none', 'not surrounded'}:
        return None
    return sorted(labels)


# -- linearity --------------------------------------------------------------
def run_linear(case):
    tree, given, xyz, values, at, _, options = build(
        {**case, 'kind': 'f8'})
    if len(xyz) < 2:
        return None
    rng = np.random.default_rng(case['seed'] + 5)
    second = rng.normal(size=len(xyz))
    results = [tree.universal_kriging(at, **options)]
    for v in (second, 2 * values - 3 * second, 4 * values):
        other = pyinterp.RTree(ecef=case['ecef'])
        other.packing(given, v)
        results.append(other.universal_kriging(at, **options))
    where = f'{case}'
    (a, n), (b, _), (c, m), (d, _) = results
    require(np.array_equal(n, m), f'{where}: {n} and {m} neighbours')
    size = (np.abs(values).max() + np.abs(second).max()) * 10
    both = np.isfinite(a) & (np.abs(a) < 1e3) & (np.abs(b) < 1e3)
    require(np.array_equal(np.isnan(a), np.isnan(c)),
            f'{where}: {a} and {c}')
    # The weights do not depend on the values.
    require(np.allclose(d[both], 4 * a[both], rtol=1e-11, atol=0),
            f'{where}: {a}, {d} for values four times larger')
    # Their size is unknown here: bounded by the results for unit values.
    weight = np.zeros(len(at))
    for i in range(min(len(xyz), 3)):
        other = pyinterp.RTree(ecef=case['ecef'])
        v = np.zeros(len(xyz))
        v[i] = 1.0
        other.packing(given, v)
        weight = np.fmax(weight, np.abs(other.universal_kriging(
            at, **options)[0]))
    big = np.maximum(weight, 1) * np.maximum(
        np.maximum(np.abs(a), np.abs(b)), size)
    require((np.abs(c - (2 * a - 3 * b))[both] <= 1e-7 * big[both]).all(),
            f'{where}: {a}, {b}, combination {c}')
    # The magnitude of the covariance has no effect.
    e, _ = tree.universal_kriging(at, **{**options,
                                         'sigma': options['sigma'] * 2})
    require(np.allclose(e[both], a[both], rtol=1e-12, atol=1e-13),
            f'{where}: {a}, {e} with twice the magnitude')
    return case['name'] if both.any() else None


# -- arguments --------------------------------------------------------------
@st.composite
def argument_case(draw):
    return {'name': draw(st.sampled_from(
        list(scattered.COVARIANCES) + ['', 'unknown', 'Matern_32'])),
            'sigma': draw(st.sampled_from([1.0, 0.0, -1.0, 2.0])),
            'alpha': draw(st.sampled_from([1e6, 0.0, -5.0, 1e5])),
            'raw': draw(st.booleans())}


def run_argument(case):
    rng = np.random.default_rng(3)
    xy = rng.uniform(-5, 5, (30, 2))
    tree = pyinterp.RTree()
    tree.packing(xy, rng.normal(size=30))
    valid = (not case['name'] or case['name'] in scattered.COVARIANCES) and \
        case['sigma'] > 0 and case['alpha'] > 0
    try:
        tree.universal_kriging(xy[:3] + 0.1, covariance=case['name'],
                               sigma=case['sigma'], alpha=case['alpha'],
                               within=False)
    except ValueError:
        require(not valid, f'{case}: refused')
        return 'refused'
    require(valid, f'{case}: accepted')
    return 'accepted'


FACETS = [
    Facet('system', case_strategy(), run, 4000, 3, 'Kriging system.'),
    Facet('linear', case_strategy(), run_linear, 1200, 1,
          'Linearity and invariance.'),
    Facet('arguments', argument_case(), run_argument, 120, 1,
          'Names and parameters.'),
    defaults.facet('R03'),
    large.facet('R03'),
]
