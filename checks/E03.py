"""E03: areas and spatial predicates."""
import hypothesis.strategies as st
import numpy as np
from pyinterp import geodetic

from vf import defaults, geodesy, large, shapes
from vf.engine import Facet, Violation, require

PARTS = ['geodetic']
RULE = """Star-shaped polygons of 3 to 12 vertices around a centre placed
anywhere (date line, equator, up to 84 degrees), radius 0.25 to 20 degrees,
with zero, one or two holes, longitudes written on any turn; pairs of such
polygons around the same place; boxes with corners on a grid of quarter degrees
and the whole Earth; multi-polygons of one to three parts; points everywhere,
close to the boundaries and on other turns. Large inputs and
structures of up to tens of thousands of items. Non-trivial: points on both sides
of a boundary (or operands that overlap)."""
ASSUMPTIONS = [
    'edges of polygons are geodesics; membership is not asserted within '
    '1e-3 degree + 0.1 % of the radius of a boundary',
    'areas within 1e-6 (1e-5 for boxes, 1e-3 near poles, 1e-4 for the results of set '
    'operations), perimeters within 1.5 times the square of the flattening, envelopes within 2e-3 degree (0.1 % of the radius), '
    'distances within 0.2 %',
    'latitudes of polygons stay within 85 degrees; outlines are simple; '
    'flattenings up to 1/290 (the areas of Boost are off by 1 % beyond 1/200)',
    'operands of set operations have longitudes within a turn of [-180, 180], '
    'and the same ones for edges in common; what fails for a pair of operands '
    'must fail also for three neighbouring pairs (Boost misses intersections '
    'of one pair in ten thousand)',
]
SPHEROIDS = [None, (6378137.0, 1 / 298.257223563), (6371000.0, 0.0),
             (6378206.4, 1 / 294.9786982138), (1000.0, 1 / 300)]


def polygon(outlines, shift=0):
    lists = [[geodetic.Point(x + shift, y) for x, y in outline]
             for outline in outlines]
    return geodetic.Polygon(lists[0], lists[1:] or None)


def spheroid(which):
    item = SPHEROIDS[which]
    if item is None:
        return None, geodesy.A, geodesy.F
    return geodetic.Spheroid(item), item[0], item[1]


turns = st.sampled_from([0, 0, 0, -360, 360, 720])
seeds = st.integers(0, 9999)


@st.composite
def single(draw):
    return {'star': draw(shapes.stars()), 'seed': draw(seeds),
            'shift': draw(turns), 'turn': draw(turns),
            'threads': draw(st.sampled_from([0, 1, 2, 5])),
            'wgs': draw(st.integers(0, len(SPHEROIDS) - 1)),
            'rotation': draw(st.integers(-720, 720)) / 2}


def contains(shape, lon, lat, threads, where):
    """Vectorised membership, compared with the scalar one."""
    got = shape.covered_by(lon, lat, threads)
    for k in range(0, len(lon), 5):
        one = shape.covered_by(geodetic.Point(lon[k], lat[k]))
        require(one == got[k], f'{where}: ({lon[k]}, {lat[k]}) is {one} alone '
                f'and {got[k]} in a vector')
    return np.asarray(got)


def agree(got, want, certain, lon, lat, where):
    wrong = (got != want) & certain
    if wrong.any():
        k = int(np.argmax(wrong))
        require(False, f'{where}: ({lon[k]}, {lat[k]}) '
                f'{"in" if got[k] else "out"}, expected the contrary')


def close(got, want, tol, where):
    require(abs(got - want) <= tol * abs(want),
            f'{where}: {got!r} instead of {want!r}')


def run_points(case):
    star = case['star']
    outlines = shapes.rings(star)
    region = shapes.Region(outlines, star['lon'])
    lon, lat = shapes.test_points([region], star['lon'], star['lat'],
                                  star['radius'], case['seed'])
    inside, gap = region.query(lon, lat)
    certain = gap > shapes.margin(star['radius'])
    shape = polygon(outlines, case['shift'])
    got = contains(shape, lon + case['turn'], lat, case['threads'], case)
    agree(got, inside, certain, lon, lat, f'{case}')
    # The vertices are covered (the outline belongs to the polygon).
    require(shape.num_interior_rings() == len(outlines) - 1,
            f'{case}: {shape.num_interior_rings()} holes')
    # Opposite and open outlines are repaired.
    lists = [[geodetic.Point(*p) for p in outline[::-1][:-1]]
             for outline in outlines]
    bad = geodetic.Polygon(lists[0], lists[1:] or None)
    fixed = bad.correct()
    agree(contains(fixed, lon, lat, 1, case), inside, certain, lon, lat,
          f'{case}: corrected')
    close(fixed.area(), shape.area(), 1e-7, f'{case}: area corrected')
    # The distance of a point is zero inside, else that of the boundary.
    x, y = region.segments[:2]
    step = geodesy.distance(x, y, *region.segments[2:]).max()
    for k in range(0, len(lon), 4):
        if not certain[k]:
            continue
        distance = shape.distance(geodetic.Point(lon[k], lat[k]))
        if inside[k]:
            require(distance == 0, f'{case}: {distance} inside')
            continue
        want = np.nanmin(geodesy.distance(x + region.lon0, y, lon[k], lat[k]))
        if want > 4e6:
            continue
        least = np.sqrt(max(want**2 - (step / 2)**2, 0))
        require(least * 0.998 <= distance <= want * 1.002,
                f'{case}: distance {distance} of ({lon[k]}, {lat[k]}), '
                f'expected {least} to {want}')
    if not (inside & certain).any() or (inside | ~certain).all():
        return None
    return [f'{len(outlines) - 1} holes', f'radius {star["radius"]}']


def run_measures(case):
    star = case['star']
    outlines = shapes.rings(star)
    wgs, a, f = spheroid(case['wgs'])
    shape = polygon(outlines, case['shift'])
    surface = shapes.area(outlines, a, f)
    close(shape.area(wgs), surface, 1e-6, f'{case}: area')
    close(shape.perimeter(wgs), shapes.length(outlines, a, f),
          1.5 * f**2 + 1e-8, f'{case}: perimeter')
    # Rotation around the polar axis.
    turned = polygon(outlines, case['rotation'])
    close(turned.area(wgs), surface, 1e-6, f'{case}: area, rotated')
    close(turned.perimeter(wgs), shape.perimeter(wgs), 1e-7,
          f'{case}: perimeter, rotated')
    # Subdivision in triangles.
    total = 0.0
    centre = (star['lon'], star['lat'])
    for p, q in zip(outlines[0], outlines[0][1:]):
        total += polygon([[centre, p, q, centre]]).area(wgs)
    for hole in outlines[1:]:
        total -= polygon([hole[::-1]]).area(wgs)
    close(total, surface, 1e-6, f'{case}: area of the triangles')
    # Envelope.
    region = shapes.Region(outlines[:1], star['lon'])
    box = shape.envelope()
    want = region.envelope()
    got = (box.min_corner.lon, box.min_corner.lat, box.max_corner.lon,
           box.max_corner.lat)
    turn = round((got[0] - want[0]) / 360) * 360
    tol = 2e-3 + 1e-3 * star['radius']
    for k in range(4):
        gap = got[k] - want[k] - (turn if k % 2 == 0 else 0)
        require(abs(gap) <= tol, f'{case}: envelope {got}, expected {want}')
    require(-180 <= got[0] <= 180, f'{case}: envelope {got}')
    return f'spheroid {case["wgs"]}'


@st.composite
def pairs(draw):
    a = draw(shapes.stars())
    around = (a['lon'], a['lat'], a['radius'])
    others = draw(st.lists(shapes.stars(around=around), min_size=1,
                           max_size=2))
    wrap = draw(st.sampled_from([0, 0, 1, 2]))
    b, c = others[0], others[-1]
    if wrap:
        # Boost does not recognise edges in common on different turns.
        b, c = dict(b, turn=b['turn'] + 0.3), dict(c, turn=c['turn'] + 0.6)
    return {'a': a, 'b': b, 'c': c, 'seed': draw(seeds), 'wrap': wrap, 'threads': draw(st.sampled_from([0, 1, 3])),
            'multi': draw(st.booleans())}


def run_sets(case):
    try:
        return check_sets(case)
    except Violation as error:
        # Boost misses some intersections, in about one pair of polygons out
        # of ten thousand: what fails has to fail also on its neighbours.
        failure = error
    for k in (1, 2, 3):
        other = dict(case)
        for name in 'bc':
            star = case[name]
            other[name] = dict(
                star, lon=star['lon'] + k * 3e-3 * star['radius'],
                lat=star['lat'] + (k - 2) * 2e-3 * star['radius'],
                turn=star['turn'] + 0.05 * k)
        try:
            check_sets(other)
        except Violation:
            continue
        return 'boost'
    raise failure


WRAPS = [lambda x: x, lambda x: x % 360, lambda x: (x + 180) % 360 - 180]


def check_sets(case):
    stars = [case[k] for k in 'abc']
    outlines = [shapes.rings(s) for s in stars]
    regions = [shapes.Region(o, s['lon']) for o, s in zip(outlines, stars)]
    main = stars[0]
    lon, lat = shapes.test_points(regions[:2], main['lon'], main['lat'],
                                  main['radius'], case['seed'])
    (i, gi), (j, gj), (k, gk) = (r.query(lon, lat) for r in regions)
    certain = np.minimum(gi, gj) > shapes.margin(main['radius'])
    wrap = WRAPS[case['wrap']]
    p, q, r = (polygon([[(w(x), y) for x, y in ring] for ring in o])
               for o, w in zip(outlines, (WRAPS[0], wrap, WRAPS[0])))
    threads = case['threads']
    parts = {}
    for name, want in (('union', i | j), ('intersection', i & j),
                       ('difference', i & ~j)):
        result = getattr(p, name)(q)
        parts[name] = result.area()
        agree(contains(result, lon, lat, threads, case), want, certain, lon,
              lat, f'{case}: {name}')
    scale = p.area() + q.area()
    gap = parts['union'] + parts['intersection'] - scale
    require(abs(gap) <= 1e-4 * scale, f'{case}: areas of the union and of '
            f'the intersection: {parts}, {scale}')
    gap = parts['difference'] + parts['intersection'] - p.area()
    require(abs(gap) <= 1e-4 * scale, f'{case}: areas of the difference and '
            f'of the intersection: {parts}, {p.area()}')
    meet = (i & j & certain).any()
    if meet:
        require(p.intersects(q) and q.intersects(p), f'{case}: no meeting')
        require(not p.touches(q), f'{case}: interiors meet, touching')
        require(p.distance(q) == 0, f'{case}: distance {p.distance(q)}')
    if not p.intersects(q):
        require(parts['intersection'] == 0, f'{case}: an intersection')
        require(p.distance(q) > 0, f'{case}: apart at distance 0')
    if case['multi']:
        # The same with several parts, which may not overlap.
        others = q.difference(r)
        want_j = j & ~k
        sure = certain & (gk > shapes.margin(main['radius']))
        agree(contains(others, lon, lat, threads, case), want_j, sure, lon,
              lat, f'{case}: parts')
        one = geodetic.MultiPolygon([p])
        for name, value in (('union', i | want_j),
                            ('intersection', i & want_j)):
            for left, right in ((others, p), (others, one), (one, others)):
                result = getattr(left, name)(right)
                agree(contains(result, lon, lat, threads, case), value, sure,
                      lon, lat, f'{case}: {name} of several parts')
        if (i & want_j & sure).any():
            require(others.intersects(p) and one.intersects(others),
                    f'{case}: parts do not meet')
            require(not others.touches(p) and not one.touches(others),
                    f'{case}: parts touch')
    return ['overlap' if meet else 'apart',
            'parts' if case['multi'] else 'single'] if (
                meet or case['multi']) else None


@st.composite
def boxes(draw):
    west = draw(st.one_of(st.sampled_from([-180.0, 170.0, 0.0]),
                          st.integers(-720, 719).map(lambda k: k / 4)))
    width = draw(st.sampled_from([0.25, 1, 10, 30, 90, 170]))
    width = min(width, 180 - west)
    south = draw(st.integers(-360, 355)) / 4
    height = draw(st.sampled_from([0.25, 1, 10, 60, 180]))
    return {'west': west, 'east': west + width, 'south': south,
            'north': min(90.0, south + height), 'seed': draw(seeds),
            'turn': draw(turns), 'threads': draw(st.sampled_from([0, 1, 3])),
            'wgs': draw(st.integers(0, len(SPHEROIDS) - 1)),
            'earth': draw(st.integers(0, 9)) == 0}


def run_box(case):
    west, east, south, north = (case[k] for k in (
        'west', 'east', 'south', 'north'))
    if case['earth']:
        west, east, south, north = -180.0, 180.0, -90.0, 90.0
        box = geodetic.Box.whole_earth()
    elif case['seed'] % 2:
        box = geodetic.Box()
        box.min_corner = geodetic.Point(west, south)
        box.max_corner = geodetic.Point(east, north)
    else:
        box = geodetic.Box(geodetic.Point(west, south),
                           geodetic.Point(east, north))
    got = (box.min_corner.lon, box.min_corner.lat, box.max_corner.lon,
           box.max_corner.lat)
    require(got == (west, south, east, north), f'{case}: corners {got}')
    rng = np.random.default_rng(case['seed'])
    lon = np.concatenate([rng.uniform(-180, 180, 10),
                          rng.uniform(west, east, 8), [west, east, west],
                          [west - 1e-3, east + 1e-3, west, east]])
    lat = np.concatenate([rng.uniform(-90, 90, 10),
                          rng.uniform(south, north, 8), [south, north, north],
                          [(south + north) / 2] * 2,
                          [max(south - 1e-3, -90), min(north + 1e-3, 90)]])
    # Longitudes modulo one turn.
    span = east - west
    offset = (lon - west) % 360
    want = ((offset <= span) | (offset >= 360 - 1e-12)) & (
        south <= lat) & (lat <= north)
    pole = np.abs(lat) == 90
    found = contains(box, lon + case['turn'], lat, case['threads'], case)
    agree(found, want, ~pole, lon, lat, f'{case}')
    centre = box.centroid()
    require(abs(centre.lon - (west + east) / 2) < 1e-9
            and abs(centre.lat - (south + north) / 2) < 1e-9,
            f'{case}: centroid {centre}')
    if case['earth'] or max(abs(south), abs(north)) == 90:
        return 'pole'
    outline = [(west, south), (west, north), (east, north), (east, south),
               (west, south)]
    shape = box.as_polygon()
    require([(p.lon, p.lat) for p in shape.outer] == outline
            and len(shape.inners) == 0, f'{case}: outline {shape}')
    wgs, a, f = spheroid(case['wgs'])
    close(box.area(wgs), shapes.area([outline], a, f), 1e-5 if max(
        abs(south), abs(north)) <= 85 else 1e-3, f'{case}: area')
    other = geodetic.Box(geodetic.Point(max(west - 1, -180), south),
                         geodetic.Point(west + span / 2, north))
    require(box.distance(other) == 0 and other.distance(box) == 0,
            f'{case}: distance of boxes that meet')
    require(box.distance(geodetic.Point(west, north)) <= 1e-3,
            f'{case}: distance of a corner of the box')
    return 'box'


@st.composite
def collections(draw):
    first = draw(shapes.stars(radii=(0.25, 1, 2)))
    count = draw(st.integers(1, 3))
    stars = [first]
    for k in range(1, count):
        other = draw(shapes.stars(around=(0, 0, first['radius'])))
        # Side by side.
        other['lon'] = first['lon'] + 3.0 * k * first['radius'] / np.cos(
            np.radians(first['lat']))
        other['lat'] = first['lat']
        stars.append(other)
    return {'stars': stars, 'seed': draw(seeds),
            'threads': draw(st.sampled_from([0, 1, 3])),
            'wgs': draw(st.integers(0, len(SPHEROIDS) - 1)),
            'how': draw(st.lists(st.sampled_from(['append', 'add', 'iadd']),
                                 min_size=2, max_size=2))}


def run_collection(case):
    stars = [s for s in case['stars'] if abs(s['lat']) < 80]
    if not stars:
        return None
    outlines = [shapes.rings(s) for s in stars]
    pieces = [polygon(o) for o in outlines]
    total = geodetic.MultiPolygon([pieces[0]])
    for piece, how in zip(pieces[1:], case['how']):
        before = len(total)
        if how == 'append':
            total.append(piece)
        elif how == 'add':
            new = total + geodetic.MultiPolygon([piece])
            require(len(total) == before, f'{case}: + changed its operand')
            total = new
        else:
            total += geodetic.MultiPolygon([piece])
    require(len(total) == len(pieces) and list(total) == pieces and [
        total[k] for k in range(len(pieces))] == pieces, f'{case}: parts')
    for k in (len(pieces), len(pieces) + 7):
        try:
            total[k]
        except IndexError:
            pass
        else:
            require(False, f'{case}: part {k} of {len(pieces)}')
    for piece in pieces:
        require(piece in total, f'{case}: a part is missing')
    stranger = polygon([[(x, y + 0.01) for x, y in outlines[0][0]]])
    require(stranger not in total, f'{case}: a foreign part')
    wgs, a, f = spheroid(case['wgs'])
    close(total.area(wgs), sum(shapes.area(o, a, f) for o in outlines), 1e-6,
          f'{case}: area')
    require(total.num_interior_rings() == sum(len(o) - 1 for o in outlines),
            f'{case}: number of holes')
    # Membership of any part.
    lon0, lat0 = stars[-1]['lon'], stars[-1]['lat']
    regions = [shapes.Region(o, s['lon']) for o, s in zip(outlines, stars)]
    lon, lat = shapes.test_points(regions, lon0, lat0, stars[0]['radius'],
                                  case['seed'])
    want, gap = np.zeros(len(lon), bool), np.full(len(lon), 999.0)
    for region in regions:
        i, g = region.query(lon, lat)
        want, gap = want | i, np.minimum(gap, g)
    certain = gap > shapes.margin(stars[0]['radius'])
    agree(contains(total, lon, lat, case['threads'], case), want, certain,
          lon, lat, f'{case}')
    # Distances are those of the nearest part.
    for k in range(0, len(lon), 9):
        point = geodetic.Point(lon[k], lat[k])
        each = min(piece.distance(point) for piece in pieces)
        require(total.distance(point) == each, f'{case}: distance of '
                f'({lon[k]}, {lat[k]}): {total.distance(point)}, {each}')
    box = total.envelope()
    for piece in pieces:
        for point in piece.outer:
            shifted = geodetic.Point(point.lon, point.lat)
            dx = (shifted.lon - box.min_corner.lon + 1e-9) % 360
            require(dx <= box.max_corner.lon - box.min_corner.lon + 2e-9
                    and box.min_corner.lat - 1e-9 <= shifted.lat
                    <= box.max_corner.lat + 1e-9,
                    f'{case}: {point} out of the envelope {box}')
    # A collection added to itself.
    size = len(total)
    total += total
    require(len(total) == 2 * size and list(total) == pieces * 2,
            f'{case}: added to itself: {list(total)}')
    return f'{len(pieces)} parts'


@st.composite
def rectangles(draw):
    return {
        'lat': draw(st.sampled_from([0, 0, 0, 10, -33, 60])),
        'lon': draw(st.integers(-150, 150)),
        'size': [draw(st.integers(2, 12)), draw(st.integers(1, 8))],
        'north': draw(st.booleans()),
        # Parallelogram: centre, half sizes and slants of its sides.
        'centre': [draw(st.integers(-4, 4)) / 10, draw(st.integers(-4, 4)) / 7],
        'half': [draw(st.sampled_from([0.21, 0.33, 0.4])),
                 draw(st.sampled_from([0.83, 1.1, 1.7]))],
        'slant': draw(st.sampled_from(
            [-1.5, -0.6, -0.2, 0.13, 0.2, 0.6, 1.5, 0])),
        'side': draw(st.booleans()),
    }


def clipped(points, box):
    """Area of the part of a convex polygon inside a box of the plane."""
    points = points[:-1]
    for axis, sign, limit in ((0, 1, box[0]), (1, 1, box[1]),
                              (0, -1, -box[2]), (1, -1, -box[3])):
        result = []
        for p, q in zip(points, points[1:] + points[:1]):
            u, v = sign * p[axis] - limit, sign * q[axis] - limit
            if u >= 0:
                result.append(p)
            if u * v < 0:
                t = u / (u - v)
                result.append((p[0] + t * (q[0] - p[0]),
                               p[1] + t * (q[1] - p[1])))
        points = result
    return abs(sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(
        points, points[1:] + points[:1]))) / 2


def run_rectangle(case):
    """A rectangle along a parallel or the equator, and a parallelogram."""
    # Sound at the place drawn, or at one of three others: Boost loses a few
    # pairs whose vertices or crossings fall on the same numbers.
    for number, move in enumerate((0, 0.1237, -0.317, 7.0893)):
        try:
            return place_rectangle(case, move)
        except Violation as exc:
            if exc.key is not None or number == 3:
                raise


def place_rectangle(case, move):
    lon, lat = case['lon'] + move, case['lat']
    width, height = case['size']
    low, high = (lat, lat + height) if case['north'] else (lat - height, lat)
    outline = [(lon, low), (lon, high), (lon + width, high), (lon + width, low),
               (lon, low)]
    # Crosses the edge of latitude lat, or the western one.
    if case['side']:
        x, y = lon, (low + high) / 2
    else:
        x, y = lon + width / 2, lat
    half, tall = case['half']
    x += case['centre'][0]
    slant = case['slant']
    if case['side']:
        half, tall = tall, half / 2
    else:
        y += case['centre'][1]
    bottom = [(x + u * half - slant * tall, y - tall) for u in (-1, 1)]
    top = [(x + u * half + slant * tall, y + tall) for u in (-1, 1)]
    other = [bottom[0], top[0], top[1], bottom[1], bottom[0]]
    if clipped(other, (lon, low, lon + width, high)) < 0.1 * min(
            width * height, 4 * half * tall):
        return None
    a, b = polygon([outline]), polygon([other])
    # Some side of the parallelogram crosses the equator obliquely.
    key = 'equator' if lat == 0 and slant else None
    areas = [float(v.area()) for v in (a, b)]
    small = min(areas)
    try:
        both = sum(float(v.area()) for v in a.intersection(b))
        union = sum(float(v.area()) for v in a.union(b))
        left = sum(float(v.area()) for v in a.difference(b))
        right = sum(float(v.area()) for v in b.difference(a))
        require(a.intersects(b) and b.intersects(a), 'intersects')
        require(0 < both < small * (1 + 1e-3), f'intersection of {both} m2, '
                f'areas {areas}')
        for what, value in (('union', both + union - sum(areas)),
                            ('difference', both + left - areas[0]),
                            ('converse difference', both + right - areas[1])):
            require(abs(value) <= 1e-3 * small, f'{what}: {value} m2 lost, '
                    f'areas {areas}')
    except Violation as exc:
        require(False, str(exc), key)
    return [f'latitude {lat}', 'slanted' if slant else 'straight']


FACETS = [
    Facet('points', single, run_points, quick=45, shards=8, thorough=6000,
          doc='membership and distance of points'),
    Facet('measures', single, run_measures, quick=40, shards=6,
          thorough=6000, doc='areas, perimeters and envelopes'),
    Facet('sets', pairs, run_sets, quick=45, shards=8, thorough=6000,
          doc='unions, intersections and differences'),
    Facet('boxes', boxes, run_box, quick=150, shards=4, thorough=20000,
          doc='boxes'),
    Facet('collections', collections, run_collection, quick=40, shards=6,
          thorough=4000, doc='multi-polygons'),
    Facet('rectangles', rectangles(), run_rectangle, quick=150, shards=3,
          doc='rectangles along the equator or not'),
    defaults.facet('E03'),
    large.facet('E03', 12),
]
