"""E04: crossovers, intersections and positions along lines."""
import hypothesis.strategies as st
import numpy as np
from pyinterp import geodetic

from vf import defaults, geodesy, large, shapes, tracks
from vf.engine import Facet, Violation, require

PARTS = ['geodetic']
RULE = """Pairs of polylines of 2 to 10 vertices (up to 60 for the nearest
vertices) around a place anywhere (date line included, up to 70 degrees), 0.1
to 10 degrees long, straight to strongly bent, that cross zero to many times or
end on each other's vertex, each with its own convention of longitudes; pairs of
half-orbits (monotonic longitudes, up to 179 degrees) in one convention or the
other for the calculation in the plane; points around lines; polygons crossed by
lines. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least one crossing, or a dropped vertex, or a point off
the line."""
ASSUMPTIONS = [
    'edges are geodesics; crossings are not asserted if a vertex of a line is '
    'within 20 m of the other line, unless the vertex is common to both',
    'positions of crossings within 5 m + 4e-4 of the extent of the lines, '
    'divided by the sine of the angle at which they cross',
    'the calculation in the plane is for half-orbits as documented: '
    'longitudes monotonic, both tracks in the same convention',
    'lines between two points of one latitude: on the equator (a known finding '
    'for some crossings) or at more than 20 degrees (Boost has the same trouble '
    'with the summit of an edge just beside the equator)',
    'positions along lines within 0.5 % + 1 m in distance (Boost)',
]
seeds = st.integers(0, 9999)
SPHEROIDS = [None, (6378137.0, 1 / 298.257223563), (6378206.4,
                                                    1 / 294.9786982138)]


def spheroid(which):
    item = SPHEROIDS[which]
    if item is None:
        return None, geodesy.A, geodesy.F
    return geodetic.Spheroid(item), item[0], item[1]


def raises(kind, function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except kind:
        return True
    return False


def pairs(**options):
    @st.composite
    def strategy(draw):
        case = draw(tracks.pairs(**options))
        case['seed'] = draw(seeds)
        case['wgs'] = draw(st.integers(0, len(SPHEROIDS) - 1))
        case['common'] = draw(st.integers(0, 5)) == 0
        case['reverse'] = draw(st.booleans())
        case['predicate'] = draw(st.sampled_from(
            [None, 1e3, 1e4, 5e4, 2e5, 1e7]))
        case['strategy'] = draw(st.sampled_from(
            ['andoyer', 'thomas', 'vincenty']))
        return case
    return strategy


def both(case):
    """Unwrapped tracks, and the same with their convention of longitudes."""
    a, b = (tracks.track(case, k) for k in (0, 1))
    if case['common']:
        # A vertex of the second line moved on a vertex of the first one.
        k, m = case['seed'] % len(a[0]), case['seed'] // 7 % len(b[0])
        b[0][m], b[1][m] = a[0][k], a[1][k]
    if case['reverse']:
        b = [v[::-1].copy() for v in b]
    wraps = case['wraps']
    if case['common']:
        # Boost does not recognise a vertex on another turn.
        wraps = [wraps[1]] * 2
    return a, b, [(tracks.WRAPS[w](t[0]), t[1])
                  for w, t in zip(wraps, (a, b))]


def distances(track, lon, lat):
    return geodesy.distance(track[0], track[1], lon, lat)


def same_points(got, want, tol, where):
    """Each wanted position is found, and each found one is wanted."""
    if not want:
        require(len(got) == 0, f'{where}: {got}, no crossing expected')
        return
    require(len(got) > 0, f'{where}: nothing found, expected {want}')
    w, g = np.array(want, 'f8')[:, :2], np.array(got, 'f8')
    gap = geodesy.distance(w[:, None, 0], w[:, None, 1], g[None, :, 0],
                           g[None, :, 1])
    for k, best in enumerate(gap.min(1)):
        require(best <= tol[k], f'{where}: the crossing {want[k]} is missed by '
                f'{best} m: {got}')
    for k in range(len(g)):
        require((gap[:, k] <= tol).any(), f'{where}: {got[k]} is no crossing: '
                f'{want}')


def angles(a, b, found):
    """Sines of the angles of the crossings."""
    result = []
    for lon, lat, i, j in found:
        way = []
        for track, k in ((a, i), (b, j)):
            ends = [geodesy.Geodesic(lon, lat, track[0][m], track[1][m])
                    for m in (k, k + 1)]
            way.append(max(ends, key=lambda g: float(g.length)).azimuth)
        result.append(abs(np.sin(way[0] - way[1])))
    return np.array(result)


def run_crossings(case):
    a, b, (p, q) = both(case)
    want, doubt = tracks.crossings(a, b)
    size = case['scale'] * 111e3
    if case['common']:
        # Only what does not depend on tiny offsets.
        k, m = case['seed'] % len(a[0]), case['seed'] // 7 % len(b[0])
        want = None
    elif doubt < 20:
        return None
    first, second = geodetic.LineString(*p), geodetic.LineString(*q)
    both_ways = [geodetic.Crossover(first, second),
                 geodetic.Crossover(second, first)]
    require(both_ways[0].half_orbit_1 == first
            and both_ways[0].half_orbit_2 == second, f'{case}: half-orbits')
    wgs = spheroid(case['wgs'])[0]
    if want is None:
        point = a[0][k], a[1][k]
        for cross in both_ways:
            require(cross.exists(wgs), f'{case}: common vertex not seen')
            got = [(c.lon, c.lat) for c in cross.search_all(wgs)]
            require(len(got) > 0 and distances(np.array(got).T, *point).min()
                    <= 5 + 4e-4 * size, f'{case}: common vertex {point} not '
                    f'found: {got}')
        require(first.intersects(second, wgs), f'{case}: common vertex')
        return 'common vertex'
    sines = angles(a, b, want)
    tol = (5 + 4e-4 * size) / np.maximum(sines, 1e-9)
    # Crossings closer to each other than the tolerance cannot be told apart.
    exists = bool(want)
    require(first.intersects(second, wgs) == exists
            and second.intersects(first, wgs) == exists,
            f'{case}: intersects is not {exists}')
    line = [(c.lon, c.lat) for c in first.intersection(second, wgs)]
    same_points(line, want, tol, f'{case}: intersection')
    for cross in both_ways:
        require(cross.exists(wgs) == exists, f'{case}: exists not {exists}')
        got = [(c.lon, c.lat) for c in cross.search_all(wgs)]
        same_points(got, want, tol, f'{case}: search_all')
        require(len(got) == len(want), f'{case}: {len(got)} crossings, '
                f'expected {want}')
        if len(want) > 1:
            require(raises(RuntimeError, cross.search, wgs),
                    f'{case}: {len(want)} crossings and search returned '
                    'one of them')
        else:
            one = cross.search(wgs)
            require((one is not None) == exists, f'{case}: search {one}')
            if exists:
                require((one.lon, one.lat) == got[0], f'{case}: search {one}, '
                        f'search_all {got}')
    # The functions.
    args = (*p, *q)
    kwargs = {'predicate': case['predicate'], 'strategy': case['strategy'],
              'wgs': wgs, 'cartesian_plane': False}
    result = geodetic.calculate_crossover_list(*args, **kwargs)
    found = both_ways[0].search_all(wgs)
    check_list(case, result, found, p, q)
    if len(want) > 1:
        require(raises(RuntimeError, geodetic.calculate_crossover, *args,
                       **kwargs), f'{case}: several crossings, one returned')
    else:
        one = geodetic.calculate_crossover(*args, **kwargs)
        require([one] == result if result else one is None,
                f'{case}: calculate_crossover {one}, list {result}')
    return [f'{min(len(want), 4)} crossings', f'scale {case["scale"]}']


def check_list(case, result, found, p, q):
    """Points of `found` whose nearest vertices are close enough."""
    limit = case['predicate']
    _, a, f = spheroid(case['wgs'])
    expected, unsure = [], False
    for point in found:
        near = []
        for track in (p, q):
            near.append(geodesy.distance(*track, point.lon, point.lat, a, f))
        worst = max(v.min() for v in near)
        if limit is not None and abs(worst - limit) < 1e-4 * worst:
            unsure = True
        if limit is None or worst <= limit:
            expected.append((point, near))
    if unsure:
        return
    require(len(result) == len(expected), f'{case}: {len(result)} crossings '
            f'in the list, expected {len(expected)}: {result}')
    for (point, (i, j)), (other, near) in zip(result, expected):
        require((point.lon, point.lat) == (other.lon, other.lat),
                f'{case}: {point} in the list, expected {other}')
        for k, v in ((i, near[0]), (j, near[1])):
            require(v[k] <= v.min() * (1 + 1e-4), f'{case}: vertex {k} at '
                    f'{v[k]} m of {point}, the nearest is {v.argmin()} at '
                    f'{v.min()} m')


@st.composite
def clouds(draw):
    case = draw(pairs(least=2)())
    for item in case['tracks']:
        n = draw(st.sampled_from([1, 2, 10, 16, 17, 30, 60]))
        seed = draw(seeds)
        item['wobble'] = np.random.default_rng(seed).integers(
            -6, 7, n).tolist()
    case['turns'] = draw(st.lists(st.integers(0, 2), min_size=4, max_size=4))
    return case


def run_nearest(case):
    a, b, (p, q) = both(dict(case, common=False))
    cross = geodetic.Crossover(geodetic.LineString(*p),
                               geodetic.LineString(*q))
    rng = np.random.default_rng(case['seed'])
    wgs, radius, f = spheroid(case['wgs'])
    found = 0
    for turn in case['turns']:
        lon = case['lon'] + rng.uniform(-1.5, 1.5) * case['scale']
        lat = np.clip(case['lat'] + rng.uniform(-1.5, 1.5) * case['scale'],
                      -89, 89)
        point = geodetic.Point(tracks.WRAPS[turn](lon), lat)
        near = [geodesy.distance(*t, lon, lat, radius, f) for t in (a, b)]
        worst = max(v.min() for v in near)
        for limit in (case['predicate'], worst * 1.001, worst * 0.999):
            got = cross.nearest(point, limit, case['strategy'], wgs)
            if limit is not None and abs(worst - limit) < 1e-4 * worst:
                continue
            if limit is not None and worst > limit:
                require(got is None, f'{case}: {got}, whereas the nearest '
                        f'vertices are {worst} m away')
                continue
            require(got is not None, f'{case}: no vertices found')
            for k, v in zip(got, near):
                require(v[k] <= v.min() * (1 + 1e-4), f'{case}: vertex {k} at '
                        f'{v[k]} m of {point}, the nearest is {v.argmin()} at '
                        f'{v.min()} m')
            found += 1
    require(raises(ValueError, cross.nearest, point, None, 'euclid', wgs),
            f'{case}: unknown strategy')
    return f'{len(p[0])} vertices' if found else None


@st.composite
def half_orbits(draw):
    case = {'lon': draw(st.one_of(st.integers(-180, 180),
                                  st.sampled_from([180, -180, 0]))),
            'wrap': draw(st.integers(1, 2)), 'seed': draw(seeds),
            'wgs': draw(st.integers(0, len(SPHEROIDS) - 1)),
            'predicate': draw(st.sampled_from(
                [None, 1e4, 2e5, 1e6, 1e7])),
            'strategy': draw(st.sampled_from(
                ['andoyer', 'thomas', 'vincenty'])), 'tracks': []}
    for _ in range(2):
        case['tracks'].append({
            'span': draw(st.sampled_from([2, 20, 60, 100, 150, 170, 179])),
            'sign': draw(st.sampled_from([-1, 1])),
            'n': draw(st.integers(3, 30)),
            'shift': draw(st.integers(-7, 7)) / 10,
            'south': draw(st.integers(-60, 60)),
            'north': draw(st.integers(-60, 60)),
        })
    return case


def planar(a, b):
    """Crossings of two polylines of the plane, whatever the turn."""
    i, j, k = (v.ravel() for v in np.meshgrid(
        np.arange(len(a[0]) - 1), np.arange(len(b[0]) - 1), [-360., 0., 360.],
        indexing='ij'))
    dx, dy = a[0][i + 1] - a[0][i], a[1][i + 1] - a[1][i]
    ex, ey = b[0][j + 1] - b[0][j], b[1][j + 1] - b[1][j]
    wx, wy = b[0][j] + k - a[0][i], b[1][j] - a[1][i]
    det = ex * dy - dx * ey
    flat = np.abs(det) < 1e-9
    along = np.abs(ex * wy - wx * ey) < 1e-9 * np.maximum(1, np.hypot(wx, wy))
    if (flat & along).any():
        return [], True
    det = np.where(flat, 1, det)
    t, u = (ex * wy - wx * ey) / det, (dx * wy - dy * wx) / det
    least = np.minimum(np.minimum(t, 1 - t), np.minimum(u, 1 - u))
    meet = (least > 0) & ~flat
    doubt = bool((np.abs(least[~flat]) < 1e-6).any())
    return [(float(a[0][m] + t[n] * dx[n]), float(a[1][m] + t[n] * dy[n]),
             int(m), int(o))
            for n, (m, o) in enumerate(zip(i, j)) if meet[n]], doubt


def run_plane(case):
    rng = np.random.default_rng(case['seed'])
    lines = []
    for item in case['tracks']:
        x = np.cumsum(rng.uniform(0.2, 1, item['n']))
        x = (x - x[0]) / (x[-1] - x[0])
        lat = item['south'] + (item['north'] - item['south']) * x
        lat = lat + rng.uniform(-0.3, 0.3, len(x)) * abs(
            item['north'] - item['south']) / len(x)
        lon = case['lon'] + item['sign'] * (x - 0.5) * item['span'] + item[
            'shift'] * item['span']
        lines.append((lon, lat))
    want, doubt = planar(*lines)
    if doubt:
        return None
    wrap = tracks.WRAPS[case['wrap']]
    p, q = ((wrap(x), y) for x, y in lines)
    wgs, radius, f = spheroid(case['wgs'])
    expected, unsure = [], False
    for lon, lat, i, j in want:
        worst, picks = 0.0, []
        for track, m in zip(lines, (i, j)):
            # The nearest vertex in the plane, on the right turn.
            x = track[0] + np.round((lon - track[0][m]) / 360) * 360
            gap = np.hypot(x - lon, track[1] - lat)
            order = np.sort(gap)
            unsure |= len(order) > 1 and order[1] - order[0] < 1e-9
            k = int(gap.argmin())
            picks.append(k)
            d = float(geodesy.distance(lon, lat, track[0][k], track[1][k],
                                       radius, f))
            unsure |= np.isnan(d) or case['predicate'] is not None and abs(
                d - case['predicate']) < 1e-4 * d
            worst = max(worst, d)
        if case['predicate'] is None or worst <= case['predicate']:
            expected.append((lon, lat, tuple(picks)))
    if unsure:
        return None
    kwargs = {'predicate': case['predicate'], 'strategy': case['strategy'],
              'wgs': wgs}
    result = geodetic.calculate_crossover_list(*p, *q, **kwargs)
    require(len(result) == len(expected), f'{case}: {result}, expected '
            f'{expected}')
    rest = list(result)
    for lon, lat, picks in expected:
        match = [r for r in rest if abs((r[0].lon - lon + 180) % 360 - 180)
                 < 1e-6 and abs(r[0].lat - lat) < 1e-6]
        require(match, f'{case}: the crossing ({lon}, {lat}) is missing: '
                f'{result}')
        require(match[0][1] == picks, f'{case}: vertices {match[0][1]} for '
                f'({lon}, {lat}), the nearest are {picks}')
        require(-180 <= match[0][0].lon < 180, f'{case}: {match[0]}')
        rest.remove(match[0])
    if len(want) > 1:
        require(raises(RuntimeError, geodetic.calculate_crossover, *p, *q,
                       **kwargs), f'{case}: several crossings, one returned')
    else:
        one = geodetic.calculate_crossover(*p, *q, **kwargs)
        require([one] == result if result else one is None,
                f'{case}: calculate_crossover {one}, list {result}')
    # The order of the tracks and their directions do not matter.
    other = geodetic.calculate_crossover_list(*q, *p, **kwargs)
    require(len(other) == len(result), f'{case}: swapped: {other}, {result}')
    back = geodetic.calculate_crossover_list(
        *(v[::-1] for v in p), *q, **kwargs)
    require(len(back) == len(result), f'{case}: reversed: {back}, {result}')
    # Sizes.
    require(raises(ValueError, geodetic.calculate_crossover, p[0], p[1][1:],
                   *q) and raises(ValueError, geodetic.calculate_crossover_list,
                                  *p, q[0][1:], q[1]), f'{case}: sizes')
    return f'{min(len(want), 3)} crossings' if want else None


@st.composite
def lines(draw):
    case = draw(pairs(wobble=10)())
    case['threads'] = draw(st.sampled_from([0, 1, 3]))
    case['tolerance'] = draw(st.sampled_from([0.005, 0.02, 0.1, 0.5]))
    return case


def dense(track, n=400):
    edge = geodesy.Geodesic(track[0][:-1], track[1][:-1], track[0][1:],
                            track[1][1:])
    points = [edge.at(k / n) for k in range(n)] + [edge.at(1.0)]
    return [np.concatenate([v[i] for v in points]) for i in (0, 1)]


def run_closest(case):
    a, _, (p, _) = both(dict(case, common=False))
    line = geodetic.LineString(*p)
    rng = np.random.default_rng(case['seed'])
    n = 8
    lon = case['lon'] + rng.uniform(-1.5, 1.5, n) * case['scale']
    lat = np.clip(case['lat'] + rng.uniform(-1.5, 1.5, n) * case['scale'],
                  -89, 89)
    lon[0], lat[0] = a[0][0], a[1][0]
    wgs = spheroid(case['wgs'])[0]
    x, y = line.closest_point(tracks.WRAPS[case['wraps'][1]](lon), lat, wgs,
                              case['threads'])
    path = dense(a)
    step = np.max(geodesy.distance(a[0][:-1], a[1][:-1], a[0][1:],
                                   a[1][1:])) / 400
    for k in range(n):
        one = line.closest_point(geodetic.Point(
            tracks.WRAPS[case['wraps'][1]](lon[k]), lat[k]), wgs)
        require((one.lon, one.lat) == (x[k], y[k]), f'{case}: closest point '
                f'{one} alone, ({x[k]}, {y[k]}) in a vector')
        best = distances(path, lon[k], lat[k]).min()
        mine = float(geodesy.distance(x[k], y[k], lon[k], lat[k]))
        off = distances(path, x[k], y[k]).min()
        slack = 0.005 * best + 1 + step
        require(mine <= best + slack, f'{case}: closest point ({x[k]}, '
                f'{y[k]}) at {mine} m of ({lon[k]}, {lat[k]}), the line is at '
                f'{best} m')
        require(off <= slack, f'{case}: closest point ({x[k]}, {y[k]}) is '
                f'{off} m off the line')
    return f'scale {case["scale"]}'


def segment_distance(track, i, j, m):
    """Distance of a vertex from the geodesic between two others."""
    path = dense([v[[i, j]] for v in track])
    return float(distances(path, track[0][m], track[1][m]).min())


def run_simplify(case):
    a, _, (p, _) = both(dict(case, common=False))
    if len(a[0]) < 3:
        return None
    tolerance = case['tolerance'] * case['scale'] * 111e3
    wgs = spheroid(case['wgs'])[0]
    line = geodetic.LineString(*p)
    got = [(c.lon, c.lat) for c in line.simplify(
        tolerance, case['strategy'], wgs)]
    points = list(zip(p[0].tolist(), p[1].tolist()))
    # A subsequence with the same ends.
    keep, start = [], 0
    for item in got:
        require(item in points[start:], f'{case}: {item} is not a vertex, or '
                f'not in order: {got}')
        start = points.index(item, start)
        keep.append(start)
        start += 1
    require(keep[0] == 0 and got[-1] == points[-1], f'{case}: the ends are '
            f'lost: {keep}')
    # Douglas and Peucker.
    last = len(points) - 1
    want, doubt, stack = {0, last}, False, [(0, last)]
    while stack:
        i, j = stack.pop()
        if j <= i + 1:
            continue
        gaps = [segment_distance(a, i, j, m) for m in range(i + 1, j)]
        top = max(gaps)
        if abs(top - tolerance) < 0.02 * tolerance + 1 or (
                top > tolerance and sorted(gaps)[-2:][0] > 0.98 * top
                and len(gaps) > 1):
            doubt = True
            break
        if top > tolerance:
            m = i + 1 + int(np.argmax(gaps))
            want.add(m)
            stack += [(i, m), (m, j)]
    if doubt:
        return None
    require(keep == sorted(want), f'{case}: vertices {keep}, expected '
            f'{sorted(want)}')
    require(raises(ValueError, line.simplify, tolerance, 'euclid'),
            f'{case}: unknown strategy')
    return f'{len(points) - len(keep) > 0}'


@st.composite
def regions(draw):
    case = draw(pairs(wobble=3, scales=(1.0, 5.0, 10.0))())
    case['star'] = draw(shapes.stars(around=(
        case['lon'], case['lat'], case['scale'])))
    return case


def run_polygon(case):
    a, _, (p, _) = both(dict(case, common=False))
    star = case['star']
    outlines = shapes.rings(star)
    shape = [[geodetic.Point(*v) for v in ring] for ring in outlines]
    polygon = geodetic.Polygon(shape[0], shape[1:] or None)
    region = shapes.Region(outlines, star['lon'])
    n = 600
    edge = geodesy.Geodesic(a[0][:-1], a[1][:-1], a[0][1:], a[1][1:])
    total = doubt = 0.0
    for k in range(n):
        inside, gap = region.query(*edge.at((k + 0.5) / n))
        total += (inside * edge.length).sum() / n
        doubt += ((gap < 2e-3 * star['radius']) * edge.length).sum() / n
    wgs = spheroid(case['wgs'])[0]
    parts = geodetic.LineString(*p).intersection(polygon, wgs)
    got = 0.0
    for part in parts:
        x, y = (np.array(v) for v in zip(*[(c.lon, c.lat) for c in part]))
        if len(x) > 1:
            piece = geodesy.Geodesic(x[:-1], y[:-1], x[1:], y[1:])
            got += piece.length.sum()
            for t in (0.3, 0.5, 0.7):
                inside, gap = region.query(*piece.at(t))
                require((inside | (gap < 2e-3 * star['radius'] + 1e-3)).all(),
                        f'{case}: a part is out of the polygon: {part}')
        off = distances(dense(a), x[:, None], y[:, None]).min(1) if len(
            x) < 40 else np.zeros(1)
        require((off <= edge.length.max() / 400 + 50).all(),
                f'{case}: a part is off the line: {part}, {off}')
    slack = doubt + 4 * edge.length.max() / n + 1e-3 * total
    require(abs(got - total) <= slack, f'{case}: {got} m of the line in the '
            f'polygon, expected {total} +- {slack}')
    return 'crossed' if 0 < total < edge.length.sum() * 0.999 else None


@st.composite
def straight(draw):
    return {
        'lat': draw(st.sampled_from([0, 0, 0, 30, -20, 45, 70])),
        'lon': draw(st.integers(-170, 170)),
        'meridian': draw(st.booleans()),
        'half': draw(st.sampled_from([0.5, 1, 5, 20])),
        'size': draw(st.sampled_from([0.02, 0.1, 0.5, 1, 3])),
        'angle': draw(st.sampled_from(
            [10, 30, 45, 60, 80, 90, 100, 120, 135, 150, 170])),
        'at': draw(st.sampled_from([-0.6, -0.2, 0, 0.3, 0.4, 1.2, -1.5])),
        'back': draw(st.booleans()), 'swap': draw(st.booleans()),
        'wgs': draw(st.integers(0, len(SPHEROIDS) - 1)),
    }


def run_straight(case):
    """A line along a meridian or between points of the same latitude."""
    lon, lat, half = case['lon'], case['lat'], case['half']
    if case['meridian']:
        first = [np.array([lon, lon], 'f8'), np.array([lat - half, lat + half],
                                                      'f8')]
    else:
        first = [np.array([lon - half, lon + half], 'f8'),
                 np.array([lat, lat], 'f8')]
    angle, size = np.radians(case['angle']), case['size']
    side = np.array([-1, 1]) + case['at']
    second = [lon + 0.013 * half + side * size * np.cos(angle),
              lat + side * size * np.sin(angle)]
    if case['back']:
        second = [v[::-1].copy() for v in second]
    want, doubt = tracks.crossings(first, second)
    if doubt < 20:
        return None
    if case['swap']:
        first, second = second, first
        want = [(x, y, j, i) for x, y, i, j in want]
    wgs = spheroid(case['wgs'])[0]
    p, q = geodetic.LineString(*first), geodetic.LineString(*second)
    key = 'equator' if (lat == 0 and not case['meridian']
                        and case['angle'] > 90) else None
    exists = bool(want)
    tol = (5 + 4e-4 * max(half, size) * 222e3) / np.maximum(
        angles(first, second, want), 1e-9)
    try:
        require(p.intersects(q, wgs) == exists, f'intersects, not {exists}')
        cross = geodetic.Crossover(p, q)
        require(cross.exists(wgs) == exists, f'exists, not {exists}')
        for name, found in (('intersection', p.intersection(q, wgs)),
                            ('search_all', cross.search_all(wgs))):
            same_points([(c.lon, c.lat) for c in found], want, tol,
                        f'{name} {case}')
    except Violation as exc:
        require(False, str(exc), key)
    return [f'latitude {lat}'] if exists else None


FACETS = [
    Facet('crossings', pairs(), run_crossings, quick=70, shards=8,
          thorough=9000, doc='crossings of geodesic lines'),
    Facet('nearest', clouds, run_nearest, quick=100, shards=4,
          thorough=12000, doc='nearest vertices'),
    Facet('plane', half_orbits, run_plane, quick=150, shards=6,
          thorough=20000, doc='crossovers of half-orbits in the plane'),
    Facet('closest', lines, run_closest, quick=60, shards=5, thorough=6000,
          doc='closest points of a line'),
    Facet('simplify', lines, run_simplify, quick=60, shards=5, thorough=6000,
          doc='simplified lines'),
    Facet('polygon', regions, run_polygon, quick=40, shards=6, thorough=4000,
          doc='parts of a line in a polygon'),
    Facet('straight', straight(), run_straight, quick=200, shards=3,
          doc='lines along meridians and the equator'),
    defaults.facet('E04'),
    large.facet('E04'),
]
