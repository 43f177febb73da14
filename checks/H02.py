"""H02: geohash cells, regions, neighbours, areas."""
import math

import hypothesis.strategies as st
import numpy as np
import pyinterp
import pyinterp.geohash
from pyinterp import geodetic
from pyinterp.core import GeoHash, geohash

from vf import defaults, geodesy, large, shapes
from vf.engine import Facet, require

PARTS = ['geohash_int64', 'geohash_string', 'geohash_class', 'axis',
         'geodetic']
RULE = """Boxes from a point to 40 cells wide, on borders of cells or not,
reaching the poles and the date line or not, for 1 to 12 characters; star-shaped
polygons with holes and unions of them, about 0.3 to 12 cells large; sets of
codes of one length (plus mixed lengths) refined and coarsened; cells of every
size, those at the poles and along the date line included; rasters of codes of
connected areas; values put on cells. Large inputs and
structures of up to tens of thousands of items. Non-trivial: at least two cells, or a
neighbour across a pole or the date line."""
ASSUMPTIONS = [
    'boxes within [-180, 180] x [-90, 90]; polygons across the date line '
    'only in large shapes',
    'cells meeting a box or polygon only within 1e-9 degree, or 1 % of a cell '
    'for polygons (whose edges are geodesics), may be left out or not',
    'beyond a pole, the neighbour is the cell on the opposite meridian',
    'each code covers a single connected part of a raster (8-connectivity)',
    'areas are those of the quadrilaterals of geodesics between the corners, '
    'at a pole within 1e-6 of the lune under the cell, and not asserted for '
    'more than 5 characters (Boost)',
]
ALPHABET = '0123456789bcdefghjkmnpqrstuvwxyz'
seeds = st.integers(0, 9999)


def units(kind):
    """Units of the axes of longitudes or latitudes (CF conventions)."""
    return {'Longitude': ('degrees_east', ), 'Latitude': ('degrees_north', )
            }[kind]


def size(chars):
    bits = 5 * chars
    return 360 / 2**((bits + 1) // 2), 180 / 2**(bits // 2)


def grid(chars):
    bits = 5 * chars
    return 2**((bits + 1) // 2), 2**(bits // 2)


def code_of(x, y, chars):
    number, bits = 0, 5 * chars
    nx, ny = (bits + 1) // 2, bits // 2
    for index in range(bits):
        if index % 2 == 0:
            bit = (x >> (nx - 1 - index // 2)) & 1
        else:
            bit = (y >> (ny - 1 - index // 2)) & 1
        number = 2 * number + bit
    return number


def name_of(x, y, chars):
    number = code_of(x, y, chars)
    return ''.join(ALPHABET[(number >> 5 * (chars - 1 - i)) & 31]
                   for i in range(chars))


def place_of(name):
    number = 0
    for char in name:
        number = number * 32 + ALPHABET.index(char)
    return place(number, 5 * len(name))


def place(number, bits):
    x = y = 0
    for index in range(bits):
        bit = (number >> (bits - 1 - index)) & 1
        if index % 2 == 0:
            x = 2 * x + bit
        else:
            y = 2 * y + bit
    return x, y


def names(array):
    return [item.decode() for item in np.asarray(array).ravel()]


# ---------------------------------------------------------------------------
@st.composite
def spans(draw, count, width, low, most):
    """A span of coordinates: start and end, in cells."""
    first = draw(st.integers(0, count - 1)) | 0
    first = draw(st.sampled_from([first, first, first, 0, count - 1]))
    cells = draw(st.integers(0, min(most, count - first)))
    start = first + draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.999]))
    end = first + cells + draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.999]))
    start, end = min(start, count), min(end, count)
    start, end = min(start, end), max(start, end)
    return [low + start * width, low + end * width]


@st.composite
def boxes(draw):
    chars = draw(st.integers(1, 12))
    (nx, ny), (width, height) = grid(chars), size(chars)
    most = draw(st.sampled_from([1, 3, 10, 40]))
    return {'chars': chars, 'lon': draw(spans(nx, width, -180, most)),
            'lat': draw(spans(ny, height, -90, most))}


def limits(start, end, low, width, count):
    """Cells to find, cells allowed."""
    eps = 1e-9 if width > 1e-5 else 1e-13
    first, last = start - low, end - low
    may = (math.floor((first - eps) / width), math.floor((last + eps) / width))
    must0 = math.floor((first + eps) / width)
    must1 = math.ceil((last - eps) / width) - 1
    must = (min(must0, count - 1), min(must1, count - 1))
    may = max(may[0] - 0, 0), min(may[1], count - 1)
    return must, may


def box_of(case):
    return geodetic.Box(geodetic.Point(case['lon'][0], case['lat'][0]),
                        geodetic.Point(case['lon'][1], case['lat'][1]))


def run_box(case):
    chars = case['chars']
    (nx, ny), (width, height) = grid(chars), size(chars)
    box = box_of(case)
    found = names(geohash.bounding_boxes(box, chars))
    places = [place_of(item) for item in found]
    require(len(set(found)) == len(found), 'the same cell twice')
    must_x, may_x = limits(*case['lon'], -180, width, nx)
    must_y, may_y = limits(*case['lat'], -90, height, ny)
    where = f'{case["lon"]} x {case["lat"]}'
    for (x, y), name in zip(places, found):
        require(may_x[0] <= x <= may_x[1] and may_y[0] <= y <= may_y[1],
                f'cell {name} does not touch {where}')
    held = set(places)
    for x in range(must_x[0], must_x[1] + 1):
        for y in range(must_y[0], must_y[1] + 1):
            require((x, y) in held,
                    f'cell {name_of(x, y, chars)} of {where} is missing')
    require(found, 'no cell at all')
    corner, nlon, nlat = GeoHash.grid_properties(box, chars)
    require(nlon * nlat == len(found)
            and nlon == len({x for x, _ in held})
            and nlat == len({y for _, y in held}),
            f'grid of {nlon} x {nlat} and {len(found)} cells')
    require(str(corner) == name_of(min(x for x, _ in held),
                                   min(y for _, y in held), chars),
            f'{corner} is not the first corner')
    for rows in pyinterp.GeoHash.grid(box, chars), :
        table = rows['geohash']
        require(table.dims == ('lat', 'lon')
                and table.shape == (nlat, nlon), 'shape of the grid')
        lon, lat = rows['lon'].values, rows['lat'].values
        require(set(names(table.values)) == set(found), 'cells of the grid')
        for i in range(nlat):
            for j in range(nlon):
                x, y = place_of(table.values[i, j].decode())
                require(abs(lon[j] - ((x + 0.5) * width - 180)) < 1e-9
                        and abs(lat[i] - ((y + 0.5) * height - 90)) < 1e-9,
                        f'cell {table.values[i, j]} of the grid at '
                        f'({lon[j]}, {lat[i]})')
        require(table.coords['lon'].units in units('Longitude')
                and table.coords['lat'].units in units('Latitude'),
                'units of the axes of the grid')
    return 'cells' if len(found) > 1 else 'one'


# ---------------------------------------------------------------------------
@st.composite
def polygons(draw):
    chars = draw(st.integers(3, 6))
    width, height = size(chars)
    radius = height * draw(st.sampled_from([0.3, 0.8, 2, 5]))
    parts = []
    lat = draw(st.floats(-60, 60))
    lon = draw(st.floats(-150, 150))
    for _ in range(draw(st.integers(1, 3))):
        count = draw(st.integers(3, 9))
        parts.append({
            'at': [lon + draw(st.floats(-2, 2)) * radius,
                   lat + draw(st.floats(-2, 2)) * radius],
            'radii': [draw(st.floats(0.4, 1.0)) for _ in range(count)],
            'hole': draw(st.sampled_from([0, 0, 0.3, 0.6])),
        })
    return {'chars': chars, 'radius': radius, 'parts': parts,
            'spin': draw(st.floats(0, 1)),
            'threads': draw(st.sampled_from([1, 2, 3, 8])),
            'multi': draw(st.booleans())}


def outline(part, radius, spin, scale):
    """Vertices, close to each other so that edges are straight."""
    count = len(part['radii'])
    turn = 2 * np.pi * (np.arange(count) + spin) / count
    x = np.array(part['radii']) * np.cos(turn) * radius * scale
    y = np.array(part['radii']) * np.sin(turn) * radius * scale
    x, y = np.append(x, x[0]), np.append(y, y[0])
    at = np.arange(0, count * 8 + 1) / 8
    lon = part['at'][0] + np.interp(at, np.arange(count + 1), x)
    lat = part['at'][1] + np.interp(at, np.arange(count + 1), y)
    lon[-1], lat[-1] = lon[0], lat[0]
    return lon[::-1], lat[::-1]


def gap_to(rings, box):
    """Distance, in degrees, of outlines to a box (0 if they meet)."""
    x0, y0, x1, y1 = box
    best = np.inf
    for lon, lat in rings:
        t = np.linspace(0, 1, 9)
        x = lon[:-1, None] + t * np.diff(lon)[:, None]
        y = lat[:-1, None] + t * np.diff(lat)[:, None]
        dx = np.maximum(np.maximum(x0 - x, x - x1), 0)
        dy = np.maximum(np.maximum(y0 - y, y - y1), 0)
        best = min(best, np.hypot(dx, dy).min())
    return best


def contains(rings, x, y):
    """Even-odd rule, and distance to the outlines."""
    inside = False
    near = np.inf
    for lon, lat in rings:
        x0, y0, x1, y1 = lon[:-1], lat[:-1], lon[1:], lat[1:]
        hit = (y0 > y) != (y1 > y)
        with np.errstate(divide='ignore', invalid='ignore'):
            at = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
        inside ^= bool((hit & (at > x)).sum() % 2)
        dx, dy = x1 - x0, y1 - y0
        norm = dx**2 + dy**2
        t = np.clip(((x - x0) * dx + (y - y0) * dy) /
                    np.where(norm > 0, norm, 1), 0, 1)
        near = min(near, np.hypot(x0 + t * dx - x, y0 + t * dy - y).min())
    return inside, near


def run_polygon(case):
    chars, radius = case['chars'], case['radius']
    (nx, ny), (width, height) = grid(chars), size(chars)
    regions, objects = [], []
    for part in case['parts']:
        rings = [outline(part, radius, case['spin'], 1.0)]
        if case['hole'] if 'hole' in case else part['hole']:
            inner = outline(part, radius, case['spin'], part['hole'])
            rings.append((inner[0][::-1], inner[1][::-1]))
        regions.append(rings)
        objects.append(geodetic.Polygon(
            [geodetic.Point(*p) for p in zip(*rings[0])],
            [[geodetic.Point(*p) for p in zip(*r)] for r in rings[1:]]
            or None))
    if not case['multi']:
        regions, objects = regions[:1], objects[:1]
        shape = objects[0]
    else:
        shape = geodetic.MultiPolygon(objects)
    results = [geohash.bounding_boxes(shape, chars, num_threads=n)
               for n in (case['threads'], 0)]
    require(np.array_equal(*results), 'result depends on the threads')
    found = names(results[0])
    require(len(set(found)) == len(found), 'the same cell twice')
    held = {place_of(item) for item in found}
    margin = 0.01 * height
    lon = np.concatenate([r[0][0] for r in regions])
    lat = np.concatenate([r[0][1] for r in regions])
    label = None
    for x in range(max(math.floor((lon.min() + 180) / width) - 1, 0),
                   min(math.floor((lon.max() + 180) / width) + 2, nx)):
        for y in range(max(math.floor((lat.min() + 90) / height) - 1, 0),
                       min(math.floor((lat.max() + 90) / height) + 2, ny)):
            x0, y0 = x * width - 180, y * height - 90
            box = (x0, y0, x0 + width, y0 + height)
            small = (x0 + margin, y0 + margin, x0 + width - margin,
                     y0 + height - margin)
            large = (x0 - margin, y0 - margin, x0 + width + margin,
                     y0 + height + margin)
            must, may = False, False
            for rings in regions:
                # An outline enters the cell, or the region holds it whole.
                inside, near = contains(rings, x0 + width / 2, y0 + height / 2)
                if gap_to(rings, small) == 0 or (inside and near > margin):
                    must = True
                if gap_to(rings, large) <= 0.25 * height or inside:
                    may = True
            name = name_of(x, y, chars)
            if must:
                require((x, y) in held, f'cell {name} is missing')
                label = 'multi' if case['multi'] else 'polygon'
            if (x, y) in held:
                exact = may and any(
                    gap_to(rings, large) < 0.02 * height
                    or contains(rings, x0 + width / 2, y0 + height / 2)[0]
                    for rings in regions)
                # Sampled outlines: edges are far shorter than a cell.
                require(exact or (may and radius > 20 * height),
                        f'cell {name} does not touch the region')
    for x, y in held:
        require(lon.min() - width - margin <= x * width - 180 <= lon.max() +
                margin and lat.min() - height - margin <= y * height - 90 <=
                lat.max() + margin, 'cell away from the region')
    return label


# ---------------------------------------------------------------------------
@st.composite
def sets(draw):
    chars = draw(st.integers(1, 9))
    deeper = draw(st.integers(0, 12 - chars if chars > 9 else 2))
    return {'chars': chars, 'deeper': deeper,
            'codes': draw(st.lists(
                st.text(ALPHABET, min_size=chars, max_size=chars), min_size=1,
                max_size=4)),
            'tails': draw(st.lists(st.text(ALPHABET, max_size=3), min_size=4,
                                   max_size=4)),
            'seed': draw(seeds)}


def run_transform(case):
    chars, deeper = case['chars'], case['deeper']
    codes = np.array(case['codes'], dtype='S')
    target = chars + deeper
    finer = geohash.transform(codes, target)
    if deeper == 0:
        require(np.array_equal(finer, codes), 'same precision')
    else:
        require(finer.dtype == f'S{target}'
                and finer.size == codes.size * 32**deeper,
                f'{finer.size} codes {finer.dtype}')
        block = 32**deeper
        for i, code in enumerate(case['codes']):
            part = finer[i * block:(i + 1) * block]
            require(len(set(part)) == block
                    and all(item.startswith(code.encode()) for item in part),
                    f'cells of {code}')
    rng = np.random.default_rng(case['seed'])
    mixed = rng.permutation(finer)
    coarse = geohash.transform(mixed, chars)
    if deeper:
        require(sorted(names(coarse)) == sorted(set(case['codes'])),
                f'coarsened to {coarse}')
    # Any set of codes, longer than required.
    longer = [c + t for c, t in zip(case['codes'], case['tails'])]
    array = np.array(longer, dtype=f'S{chars + 3}')
    for n in {chars, max(1, chars - 1), 1}:
        got = geohash.transform(array, n)
        require(sorted(names(got)) == sorted({c[:n] for c in longer})
                and got.dtype == f'S{n}', f'coarsened to {n}: {got}')
    # Shorter codes than the items of the array cannot be refined.
    if any(len(item) != chars + 3 for item in longer):
        try:
            got = geohash.transform(array, min(12, chars + 4))
        except ValueError:
            pass
        else:
            if chars + 3 != 12:
                require(len({*names(got)}) == sum(
                    32**(min(12, chars + 4) - len(c)) for c in set(longer)),
                        'codes of several lengths refined')
    return 'refined' if deeper else 'coarsened'


# ---------------------------------------------------------------------------
@st.composite
def cells(draw):
    bits = draw(st.integers(2, 64))
    nx, ny = 2**((bits + 1) // 2), 2**(bits // 2)
    x = draw(st.integers(0, nx - 1) | st.sampled_from([0, nx - 1]))
    y = draw(st.integers(0, ny - 1) | st.sampled_from([0, ny - 1]))
    return {'bits': bits, 'x': x, 'y': y}


STEPS = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1)]


def run_neighbors(case):
    bits, x, y = case['bits'], case['x'], case['y']
    nx, ny = 2**((bits + 1) // 2), 2**(bits // 2)

    def code(x, y):
        number = 0
        for index in range(bits):
            if index % 2 == 0:
                bit = (x >> ((bits + 1) // 2 - 1 - index // 2)) & 1
            else:
                bit = (y >> (bits // 2 - 1 - index // 2)) & 1
            number = 2 * number + bit
        return number

    want = []
    for dx, dy in STEPS:
        i, j = x + dx, y + dy
        if not 0 <= j < ny:
            i, j = i + nx // 2, y
        want.append(code(i % nx, j))
    number = code(x, y)
    got = geohash.int64.neighbors(number, bits)
    pole = y in (0, ny - 1)
    line = x in (0, nx - 1)
    for k, item in enumerate(map(int, got)):
        require(item == want[k],
                f'neighbour {STEPS[k]} of {number:x} on {bits} bits is '
                f'{place(item, bits)} and not {place(want[k], bits)} '
                f'of {nx} x {ny}')
    if bits % 5 == 0 and bits <= 60:
        chars = bits // 5
        item = GeoHash.from_string(name_of(x, y, chars))
        for k, other in enumerate(item.neighbors()):
            require(place_of(str(other)) == place(want[k], bits),
                    f'neighbour {STEPS[k]} of {item} is {other}')
    return 'pole' if pole else 'line' if line else 'middle'


# ---------------------------------------------------------------------------
@st.composite
def rasters(draw):
    return {'rows': draw(st.integers(1, 12)), 'cols': draw(st.integers(1, 12)),
            'kind': draw(st.sampled_from(['axes', 'growth', 'growth'])),
            'chars': draw(st.integers(1, 12)), 'seed': draw(seeds),
            'areas': draw(st.integers(1, 12)),
            'down': draw(st.booleans())}


def grow(rng, rows, cols, areas):
    """Connected areas grown from seeds, any shape, touching by corners too."""
    label = np.full((rows, cols), -1)
    free = rows * cols
    front = []
    for k in range(min(areas, free)):
        i, j = rng.integers(rows), rng.integers(cols)
        if label[i, j] < 0:
            label[i, j] = k
            free -= 1
            front.append((i, j))
    while free:
        i, j = front[rng.integers(len(front))]
        di, dj = rng.integers(-1, 2, 2)
        a, b = i + di, j + dj
        if 0 <= a < rows and 0 <= b < cols and label[a, b] < 0:
            label[a, b] = label[i, j]
            front.append((a, b))
            free -= 1
    return label


def run_where(case):
    rng = np.random.default_rng(case['seed'])
    rows, cols, chars = case['rows'], case['cols'], case['chars']
    if case['kind'] == 'axes':
        width, height = size(chars)
        lon = -180 + np.cumsum(rng.uniform(0, 0.8, cols)) * width
        lat = -90 + np.cumsum(rng.uniform(0, 0.8, rows)) * height
        lat = np.minimum(lat, 89.9)
        lon = np.minimum(lon, 179.9)
        if case['down']:
            lat = lat[::-1]
        x, y = np.meshgrid(lon, lat)
        table = geohash.encode(x.ravel(), y.ravel(), chars).reshape(rows, cols)
    else:
        label = grow(rng, rows, cols, case['areas'])
        pool = set()
        while len(pool) < label.max() + 1:
            pool.add(''.join(rng.choice(list(ALPHABET), chars)))
        table = np.array(sorted(pool), dtype='S')[label]
    got = geohash.where(table)
    require(set(got) == set(table.ravel().tolist()),
            f'codes {set(got) ^ set(table.ravel().tolist())}')
    for code, ranges in got.items():
        i, j = np.nonzero(table == code)
        want = ((i.min(), i.max()), (j.min(), j.max()))
        require(tuple(map(tuple, ranges)) == want,
                f'{code} located in {ranges} and not {want} of\n{table}')
    return case['kind'] if len(got) < table.size else None


# ---------------------------------------------------------------------------
@st.composite
def areas(draw):
    return {'codes': draw(st.lists(st.text(ALPHABET, min_size=1, max_size=12),
                                   min_size=1, max_size=4)),
            'wgs': draw(st.sampled_from([None, 'none', 'sphere', 'clarke'])),
            'level': draw(st.sampled_from([0, 0, 0, 1, 2]))}


SPHEROIDS = {None: (geodesy.A, geodesy.F), 'none': (geodesy.A, geodesy.F),
             'sphere': (6371000.0, 0.0),
             'clarke': (6378206.4, 1 / 294.9786982138)}


def run_area(case):
    a, f = SPHEROIDS[case['wgs']]
    args = [] if case['wgs'] is None else [None] if case['wgs'] == 'none' \
        else [geodetic.Spheroid((a, f))]
    total = shapes_total(a, f)
    longest = max(map(len, case['codes']))
    array = np.array(case['codes'], dtype=f'S{longest}')
    got = geohash.area(array, *args)
    require(got.shape == array.shape, 'shape of the areas')
    for code, value in zip(case['codes'], got):
        alone = GeoHash.from_string(code).area(*args)
        require(alone == value, f'area of {code} alone')
        x, y = place_of(code)
        (nx, ny), (width, height) = grid(len(code)), size(len(code))
        if len(code) > 5 and y in (0, ny - 1):
            continue
        west, south = x * width - 180, y * height - 90
        want = (quad if len(code) < 4 else band)(west, south, width, height,
                                                 a, f)
        # Cells of a fraction of a metre: the coordinates are rounded; areas
        # are differences of those down to the equator.
        slack = 1e-4 + 4e-13 / height + 4e-13 / width
        below = total * width / 720 * (1e-6 if y in (0, ny - 1) else 3e-8)
        require(abs(value - want) <= slack * want + below,
                f'area of {code}: {value} and not {want}')
        mirror = name_of(nx - 1 - x, ny - 1 - y, len(code))
        other = geohash.area(np.array([mirror], dtype='S'), *args)[0]
        require(abs(other - value) <= slack * value + below,
                f'areas of {code} and {mirror}: {value}, {other}')
    if case['level']:
        whole = geohash.area(geohash.bounding_boxes(None, case['level']),
                             *args).sum()
        require(abs(whole / total - 1) < 1e-4, f'areas add up to {whole}')
    return 'area'


def shapes_total(a, f):
    if f == 0:
        return 4 * np.pi * a * a
    e = math.sqrt(f * (2 - f))
    return 2 * np.pi * a * a * (1 + (1 - e * e) / e * math.atanh(e))


def band(west, south, width, height, a, f):
    """Area between meridians and parallels, the edges of small cells."""
    e2 = f * (2 - f)
    node, weight = np.polynomial.legendre.leggauss(6)
    # Distance to the nearest pole, for accurate cosines.
    low = 90 - abs(south) if south < 0 else 90 - south - height
    sine = np.sin(np.radians(low + (node + 1) / 2 * height))
    lat2 = 1 - sine**2
    value = (weight * sine / (1 - e2 * lat2)**2).sum() / 2
    return (a * a * (1 - e2) * value * math.radians(height)
            * math.radians(width))


def quad(west, south, width, height, a, f):
    north = south + height
    if -north == 90 or south == -90:
        south, north = -north, -south
    if north == 90:
        # The edge along the pole has no length: the cell is what the other
        # parallel side leaves of the lune.
        under = 0.0
        if south != 0:
            edge = geodesy.Geodesic(np.array([west]), np.array([south]),
                                    np.array([west + width]),
                                    np.array([south]), a, f)
            under = abs(edge.area().sum())
        return shapes_total(a, f) * width / 720 - math.copysign(under, south)
    return abs(shapes.area([[(west, south), (west, north),
                             (west + width, north), (west + width, south),
                             (west, south)]], a, f))


# ---------------------------------------------------------------------------
@st.composite
def values(draw):
    return {'chars': draw(st.sampled_from([1, 1, 2, 2, 3])),
            'n': draw(st.integers(1, 40)), 'seed': draw(seeds),
            'type': draw(st.sampled_from(['f8', 'f4', 'i4', 'u1', 'O']))}


def run_xarray(case):
    rng = np.random.default_rng(case['seed'])
    chars, n = case['chars'], case['n']
    (nx, ny), (width, height) = grid(chars), size(chars)
    pick = rng.choice(nx * ny, min(n, nx * ny), replace=False)
    codes = np.array([name_of(int(k % nx), int(k // nx), chars) for k in pick],
                     dtype='S')
    data = rng.integers(1, 200, pick.size).astype(case['type'])
    result = pyinterp.geohash.to_xarray(codes, data)
    require(result.dims == ('lat', 'lon') and result.shape == (ny, nx)
            and result.dtype == data.dtype, 'shape or type of the grid')
    lon = np.asarray(result.coords['lon'].values)
    lat = np.asarray(result.coords['lat'].values)
    want = np.zeros((ny, nx)) if case['type'] != 'O' else np.full((ny, nx),
                                                                  None)
    x = np.rint((lon + 180) / width - 0.5).astype(int)
    y = np.rint((lat + 90) / height - 0.5).astype(int)
    require(sorted(x) == list(range(nx)) and sorted(y) == list(range(ny)),
            'axes of the grid')
    require(np.allclose((x + 0.5) * width - 180, lon)
            and np.allclose((y + 0.5) * height - 90, lat), 'axes of the grid')
    want[pick // nx, pick % nx] = data
    require(np.array_equal(result.values, want[np.ix_(y, x)]),
            'values are not in their cells')
    require(result.coords['lon'].units in units('Longitude')
            and result.coords['lat'].units in units('Latitude'),
            'units of the axes')
    for wrong in (lambda: pyinterp.geohash.to_xarray(codes, np.append(data, 1)),
                  lambda: pyinterp.geohash.to_xarray(codes.astype('U'), data)):
        try:
            wrong()
        except (ValueError, TypeError):
            continue
        require(False, 'inconsistent arguments accepted')
    return case['type']


FACETS = [
    Facet('box', boxes(), run_box, quick=500,
          doc='cells of a box, grid, table of codes'),
    Facet('polygon', polygons(), run_polygon, quick=250, shards=2,
          doc='cells of a polygon or of several'),
    Facet('transform', sets(), run_transform, quick=300,
          doc='refining and coarsening'),
    Facet('neighbors', cells(), run_neighbors, quick=800,
          doc='neighbours, poles and date line included'),
    Facet('where', rasters(), run_where, quick=500,
          doc='index ranges of the codes of a raster'),
    Facet('area', areas(), run_area, quick=250, doc='areas of cells'),
    Facet('xarray', values(), run_xarray, quick=150,
          doc='values put on the grid of cells'),
    defaults.facet('H02'),
    large.facet('H02'),
]
