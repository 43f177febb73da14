"""E05: geometries survive serialisation."""
import copy
import json
import pickle

import hypothesis.strategies as st
import numpy as np
from pyinterp import geodetic

from vf import shapes
from vf.engine import Facet, require

PARTS = ['geodetic']
RULE = """Points, boxes, line strings, polygons (any list of coordinates, with
zero to three holes), multi-polygons of zero to four parts, spheroids,
coordinate systems and crossovers whose coordinates are any finite doubles of
the domain (subnormal, signed zeros, seventeen digits); histories of one to six
copies, picklings (all protocols), deep copies, and round trips through GeoJSON
(as JSON text) and WKT; texts and lists malformed in a definite way, and texts
mutated at random. Non-trivial: at least one vertex."""
ASSUMPTIONS = [
    'WKT keeps fifteen significant digits and closes the open rings, everything '
    'else is exact to the bit',
    'holes have at least one vertex: an empty hole encloses nothing and is '
    'not kept',
    'equality is that of Boost: same positions up to rounding',
    'definitely malformed texts: name of another geometry, bracket missing or '
    'in excess, text after the end, letters in a number; Boost accepts missing '
    'coordinates (zero) and additional ones',
]
number = st.one_of(
    st.floats(-360, 360), st.integers(-360, 360).map(float),
    st.integers(-36000, 36000).map(lambda k: k / 100),
    st.sampled_from([0.0, -0.0, 180.0, -180.0, 1e-300, 0.1 + 0.2, 1 / 3,
                     123.456789012345678, 179.99999999999997]))
latitude = st.one_of(
    st.floats(-90, 90), st.sampled_from([-90.0, 90.0, 0.0, -0.0, 1e-17]),
    st.integers(-900, 900).map(lambda k: k / 10))
position = st.tuples(number, latitude).map(list)
ring = st.lists(position, min_size=1, max_size=6)
outlines = st.tuples(ring, st.lists(ring, max_size=3)).map(
    lambda v: [v[0]] + v[1])
KINDS = {
    'Point': position,
    'Box': st.tuples(position, position).map(
        lambda v: [list(c) for c in zip(*map(sorted, zip(*v)))]),
    'LineString': st.lists(position, max_size=8),
    'Polygon': outlines,
    'MultiPolygon': st.lists(outlines, max_size=4),
    'Crossover': st.tuples(ring, ring).map(list),
    'Spheroid': st.tuples(st.floats(1e-3, 1e9), st.floats(0, 0.99)).map(list),
    'Coordinates': st.tuples(st.floats(1e-3, 1e9),
                             st.floats(0, 0.99)).map(list),
}
STEPS = ['copy', 'deepcopy', 'json', 'wkt', 'pickle2', 'pickle3', 'pickle4',
         'pickle5']


def make(kind, data, how=0):
    """Builds a geometry from its coordinates."""
    point = lambda p: geodetic.Point(*p)  # noqa: E731
    line = lambda ring: [point(p) for p in ring]  # noqa: E731
    if kind == 'Point':
        result = point(data)
        if how % 2:
            result = geodetic.Point()
            result.lon, result.lat = data
        return result
    if kind == 'Box':
        if how % 2 or max(abs(p[0]) for p in data) > 180:
            result = geodetic.Box()
            result.min_corner, result.max_corner = map(point, data)
            return result
        return geodetic.Box(*map(point, data))
    if kind == 'LineString':
        if how % 3 == 1:
            x, y = np.array(data, 'f8').reshape(-1, 2).T
            return geodetic.LineString(x.copy(), y.copy())
        result = geodetic.LineString(line(data) if how % 3 == 0 else [])
        for p in data if how % 3 else []:
            result.append(point(p))
        return result
    if kind == 'Polygon':
        inners = [line(r) for r in data[1:]]
        return geodetic.Polygon(line(data[0]), inners or None)
    if kind == 'MultiPolygon':
        parts = [make('Polygon', p) for p in data]
        result = geodetic.MultiPolygon(parts if how % 2 == 0 else [])
        for p in parts if how % 2 else []:
            result.append(p)
        return result
    if kind == 'Crossover':
        return geodetic.Crossover(*[make('LineString', r) for r in data])
    if kind == 'Spheroid':
        return geodetic.Spheroid(tuple(data))
    return geodetic.Coordinates(geodetic.Spheroid(tuple(data)))


def read(kind, item):
    """Coordinates of a geometry."""
    line = lambda r: [[p.lon, p.lat] for p in r]  # noqa: E731
    if kind == 'Point':
        return [item.lon, item.lat]
    if kind == 'Box':
        return [read('Point', item.min_corner), read('Point',
                                                     item.max_corner)]
    if kind == 'LineString':
        require(len(item) == len(list(item)), f'length of {item}')
        for k, p in enumerate(line(item)):
            require([item[k].lon, item[k].lat] == p, f'element {k} of {item}')
        return line(item)
    if kind == 'Polygon':
        outer = item.outer
        rings = list(item.inners)
        require(item.num_interior_rings() == len(rings), f'holes of {item}')
        return [line(outer)] + [line(r) for r in rings]
    if kind == 'MultiPolygon':
        return [read('Polygon', p) for p in item]
    if kind == 'Crossover':
        return [line(item.half_orbit_1), line(item.half_orbit_2)]
    if kind == 'Spheroid':
        return [item.semi_major_axis, item.flattening]
    return read('Spheroid', item.spheroid)


def bits(data):
    """The same with the sign of zeros visible."""
    return repr(data)


def near(got, want):
    if isinstance(want, list):
        if len(got) == len(want) + 1 and want and isinstance(want[0], list):
            # The text notation closes the rings of polygons.
            want = want + want[:1]
        return len(got) == len(want) and all(map(near, got, want))
    return abs(got - want) <= 1e-14 * abs(want) + 5e-324


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(list(KINDS)))
    return {'kind': kind, 'data': draw(KINDS[kind]),
            'how': draw(st.integers(0, 5)),
            'steps': draw(st.lists(st.sampled_from(STEPS), min_size=1,
                                   max_size=6))}


def boxed(outline):
    """Corners of the box whose outline is given."""
    x, y = zip(*outline[0])
    return [[x[0], y[0]], [x[2], y[2]]]


def run_history(case):
    kind, data = case['kind'], case['data']
    item = make(kind, data, case['how'])
    require(bits(read(kind, item)) == bits(data), f'{case}: built '
            f'{read(kind, item)}')
    cls = getattr(geodetic, kind)
    exact, done = True, []
    for step in case['steps']:
        if step == 'copy':
            if kind in ('Spheroid', 'Coordinates', 'Crossover'):
                continue
            new = copy.copy(item)
        elif step == 'deepcopy':
            new = copy.deepcopy(item)
        elif step == 'json':
            if not hasattr(item, 'to_geojson'):
                continue
            document = json.loads(json.dumps(item.to_geojson()))
            require(document['type'] == ('Polygon' if kind == 'Box' else kind),
                    f'{case}: {document}')
            coordinates = document['coordinates']
            if kind == 'Point':
                new = geodetic.Point(*coordinates)
            elif kind == 'Box':
                (west, south), (east, north) = boxed(coordinates)
                if max(-west, east) > 180:
                    # Only the envelopes of other geometries go further.
                    require(refusal(cls.from_geojson, [
                        west, south, east, north]), f'{case}: {item}')
                    continue
                new = cls.from_geojson([west, south, east, north])
            else:
                new = cls.from_geojson(coordinates)
        elif step == 'wkt':
            if not hasattr(item, 'wkt') or case['data'] == []:
                continue
            text = item.wkt()
            new = cls.read_wkt(text)
            exact = False
            require(new.wkt() == text, f'{case}: {text} is written again as '
                    f'{new.wkt()}')
        else:
            new = pickle.loads(pickle.dumps(item, protocol=int(step[-1])))
        require(new is not item, f'{case}: {step} gives the same object')
        done.append(step)
        got = read(kind, new)
        want = read(kind, item)
        if step == 'wkt':
            require(near(got, want), f'{case}: {want} became {got} through '
                    'its text')
        else:
            require(bits(got) == bits(want), f'{case}: {want} became {got} '
                    f'through {step}')
        if exact and kind in ('Point', 'Box', 'Spheroid'):
            require(new == item and not new != item,
                    f'{case}: not equal to itself after {step}')
        if kind == 'Point':
            new.lon = 17.25
            new.lon, old = got[0], item.lon
            require(bits(old) == bits(want[0]), f'{case}: {step} shares data')
        elif kind in ('LineString', 'MultiPolygon'):
            other = copy.copy(new)
            other.append(geodetic.Point(1, 2) if kind == 'LineString' else
                         make('Polygon', [[[0, 0], [0, 1], [1, 1], [0, 0]]]))
            require(len(other) == len(new) + 1 == len(item) + 1,
                    f'{case}: {step} shares data')
        item = new
    return kind if done and data else None


seeds = st.integers(0, 9999)


@st.composite
def twins(draw):
    return {'star': draw(shapes.stars()), 'other': draw(shapes.stars()),
            'k': draw(st.integers(0, 30)), 'm': draw(st.integers(0, 30)),
            'step': draw(st.sampled_from([1e-3, 1e-2, 0.1])),
            'point': draw(position), 'spheroid': [
                draw(st.floats(1e-3, 1e9)), draw(st.floats(0, 0.9))]}


def unequal(a, b, where):
    require(not a == b and a != b and not b == a and b != a, where)


def equal(a, b, where):
    require(a == b and not a != b and b == a and not b != a, where)


def run_equality(case):
    star, step = case['star'], case['step']
    rings = [[list(p) for p in r] for r in shapes.rings(star)]
    k = case['k'] % (len(rings[0]) - 1)
    polygon = make('Polygon', rings)
    equal(polygon, make('Polygon', rings), f'{case}: same polygon')
    # Another first vertex, and the other order of the holes.
    turned = rings[0][k:-1] + rings[0][:k]
    same = [turned + turned[:1]] + rings[:0:-1]
    equal(polygon, make('Polygon', same), f'{case}: polygon that starts from '
          'another vertex')
    # One vertex moved outwards.
    moved = [[list(p) for p in r] for r in rings]
    centre = (star['lon'], star['lat'])
    for i in (0, 1):
        moved[0][k][i] += step * (moved[0][k][i] - centre[i])
    if k == 0:
        moved[0][-1] = list(moved[0][0])
    unequal(polygon, make('Polygon', moved), f'{case}: vertex {k} moved')
    if len(rings) > 1:
        unequal(polygon, make('Polygon', rings[:1]), f'{case}: hole filled')
        unequal(polygon, make('Polygon', rings[:-1]) if len(rings) > 2
                else make('Polygon', rings[:1]), f'{case}: hole filled')
    one = geodetic.MultiPolygon([polygon])
    equal(one, make('MultiPolygon', [rings]), f'{case}: same parts')
    unequal(one, make('MultiPolygon', [moved]), f'{case}: part moved')
    far = [[[x + 90, -y] for x, y in r[::-1]] for r in rings[:1]]
    two = make('MultiPolygon', [rings, far])
    equal(two, make('MultiPolygon', [far, rings]), f'{case}: parts swapped')
    unequal(two, one, f'{case}: part missing')
    require(polygon in two and make('Polygon', far) in two
            and make('Polygon', moved) not in two, f'{case}: membership')
    # Lines, boxes, points and spheroids.
    line = make('LineString', rings[0][:-1], case['m'])
    equal(line, make('LineString', rings[0][:-1]), f'{case}: same line')
    unequal(line, make('LineString', moved[0][:-1]), f'{case}: line moved')
    unequal(line, make('LineString', rings[0][:-2]), f'{case}: line shorter')
    lon, lat = case['point']
    point = geodetic.Point(lon, lat)
    equal(point, geodetic.Point(lon, lat), f'{case}: same point')
    if abs(lat) < 89:
        unequal(point, geodetic.Point(lon + step, lat), f'{case}: longitude')
    unequal(point, geodetic.Point(lon, lat + (step if lat < 0 else -step)),
            f'{case}: latitude')
    low, high = sorted([lat, rings[0][0][1]])
    if high - low > 0.01 and high < 89 and low > -89:
        corners = [[10.0, low], [20.0, high]]
        box = make('Box', corners)
        equal(box, make('Box', corners, 1), f'{case}: same box')
        for i in (0, 1):
            for j in (0, 1):
                other = [list(p) for p in corners]
                other[i][j] += step / 8
                unequal(box, make('Box', other), f'{case}: corner moved')
    a, f = case['spheroid']
    sphere = geodetic.Spheroid((a, f))
    equal(sphere, geodetic.Spheroid((a, f)), f'{case}: same spheroid')
    unequal(sphere, geodetic.Spheroid((a * 1.001, f)), f'{case}: axis')
    unequal(sphere, geodetic.Spheroid((a, f + 0.001)), f'{case}: flattening')
    return f'{len(rings) - 1} holes'


@st.composite
def texts(draw):
    kind = draw(st.sampled_from(['Point', 'Box', 'LineString', 'Polygon',
                                 'MultiPolygon']))
    data = draw(KINDS[kind].filter(bool))
    return {'kind': kind, 'data': data, 'k': draw(seeds),
            'junk': draw(st.lists(st.tuples(
                seeds, st.sampled_from(list('()(),. -+e0123456789xPOLYGON'))),
                min_size=0, max_size=4).map(lambda v: [list(x) for x in v]))}


def refused(function, argument, where):
    try:
        result = function(argument)
    except (RuntimeError, ValueError, TypeError, OverflowError):
        return
    require(False, f'{where}: {argument!r} gives {result!r}')


def refusal(function, argument):
    try:
        function(argument)
    except ValueError:
        return True
    return False


def run_text(case):
    kind, k = case['kind'], case['k']
    item = make(kind, case['data'])
    cls = getattr(geodetic, kind)
    text = item.wkt()
    name = text[:text.index('(')]
    body = text[len(name):]
    digits = [i for i, c in enumerate(text) if c.isdigit()]
    at = digits[k % len(digits)]
    others = {'POINT', 'LINESTRING', 'POLYGON', 'MULTIPOLYGON'} - {name}
    for bad in ([other + body for other in sorted(others)] + [
            body, name, text[:-1], text + ')', name + body[1:], text + ' 1',
            text + name, 'A' + text, '', ' ', text[:at] + 'x' + text[at + 1:],
            name + '(' + body, text[:at], name + '[' + body[1:]]):
        refused(cls.read_wkt, bad, f'{case}')
    # Spaces and case do not matter.
    for good in (text.lower(), name + ' ' + body, f' {text} ',
                 body.replace(',', ' , ').join([name, ''])):
        require(near(read(kind, cls.read_wkt(good)), read(kind, item)),
                f'{case}: {good!r}')
    # Whatever the text, no crash, and what is accepted is consistent.
    wild = list(text)
    for where, char in case['junk']:
        place = where % (len(wild) + 1)
        if where % 3 == 0:
            wild[place:place + 1] = [char]
        elif where % 3 == 1:
            wild.insert(place, char)
        else:
            del wild[place:place + 1]
    wild = ''.join(wild)
    try:
        result = cls.read_wkt(wild)
    except (RuntimeError, ValueError):
        result = None
    if result is not None:
        again = result.wkt()
        require(cls.read_wkt(again).wkt() == again, f'{case}: {wild!r} gives '
                f'{again!r}')
    # GeoJSON.
    if kind in ('LineString', 'Polygon', 'MultiPolygon', 'Box'):
        good = case['data']
        if kind == 'Box':
            good = sum(good, [])
            if max(-good[0], good[2]) > 180:
                return kind
        require(bits(read(kind, cls.from_geojson(good))) == bits(
            case['data']), f'{case}: {good}')
        for change in ([], [1.0], [1.0, 2.0, 3.0], ['a', 'b'], [None, 1.0],
                       None, 1.0):
            bad = copy.deepcopy(good)
            if kind == 'Box':
                bad[k % 4:k % 4 + 1] = change if isinstance(
                    change, list) and len(change) != 1 else [None]
                refused(cls.from_geojson, bad, f'{case}')
                continue
            node = bad
            while isinstance(node[0][0], list):
                node = node[k % len(node)]
            node[k % len(node)] = change
            refused(cls.from_geojson, bad, f'{case}')
        refused(cls.from_geojson, 'text', f'{case}')
        refused(cls.from_geojson, None, f'{case}')
    return kind


FACETS = [
    Facet('histories', histories, run_history, quick=700, shards=6,
          thorough=60000, doc='histories of copies and serialisations'),
    Facet('equality', twins, run_equality, quick=120, shards=5,
          thorough=12000, doc='equality of geometries'),
    Facet('texts', texts, run_text, quick=400, shards=5, thorough=40000,
          doc='malformed texts and documents'),
]
