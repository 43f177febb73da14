"""H01: geohash encoding and decoding."""
import copy
import math
import pickle
from fractions import Fraction

import hypothesis.strategies as st
import numpy as np
import pyinterp
from pyinterp.core import GeoHash, geohash

from vf import defaults, large, portable
from vf.engine import Facet, require

PARTS = ['geohash_int64', 'geohash_string', 'geohash_class']
RULE = """Positions drawn uniformly, on borders of cells of 1 to 64 bits, one
to a few roundings from them, on the poles, on the date line and up to two turns
away, encoded alone and in vectors, on 1 to 64 bits and 1 to 12 characters; codes
drawn directly, whatever their bits; arrays of codes of mixed lengths; malformed
codes, arrays and precisions. Large inputs and
structures of up to tens of thousands of items. Non-trivial: a position off the corners of its
cell, or a code refused."""
ASSUMPTIONS = [
    'a position closer to a border than the rounding of its coordinates (2e-13 '
    'degrees, more on other turns) may be put on either side of it',
    'latitudes within [-90, 90]; finite coordinates',
]
ALPHABET = '0123456789bcdefghjkmnpqrstuvwxyz'
integers = geohash.int64


def cell(code, bits):
    """Exact corner and size of a cell."""
    x = y = 0
    nx, ny = (bits + 1) // 2, bits // 2
    for index in range(bits):
        bit = (code >> (bits - 1 - index)) & 1
        if index % 2 == 0:
            x = 2 * x + bit
        else:
            y = 2 * y + bit
    width, height = Fraction(360, 2**nx), Fraction(180, 2**ny)
    return x * width - 180, y * height - 90, width, height


def reference(lon, lat, bits):
    """Codes that a position may get."""
    slack = Fraction(2e-13 * max(1, abs(lon) / 180))
    nx, ny = (bits + 1) // 2, bits // 2
    turn = (Fraction(lon) + 180) % 360
    result = set()
    for sx in (0, -slack, slack):
        x = math.floor((turn + sx) % 360 * 2**nx / 360)
        for sy in (0, -slack, slack):
            y = math.floor((Fraction(lat) + 90 + sy) * 2**ny / 180)
            y = min(max(y, 0), 2**ny - 1)
            code = 0
            for index in range(bits):
                if index % 2 == 0:
                    bit = (x >> (nx - 1 - index // 2)) & 1
                else:
                    bit = (y >> (ny - 1 - index // 2)) & 1
                code = 2 * code + bit
            result.add(code)
    return result


def text(code, chars):
    return ''.join(ALPHABET[(code >> 5 * (chars - 1 - i)) & 31]
                   for i in range(chars))


@st.composite
def positions(draw):
    def coordinate(half):
        kind = draw(st.sampled_from('ubbbn'))
        if kind == 'u':
            value = draw(st.floats(-half, half))
        else:
            n = draw(st.integers(0, 32))
            value = draw(st.integers(0, 2**n)) * (2 * half / 2**n) - half
            if kind == 'n':
                for _ in range(draw(st.integers(1, 3))):
                    value = math.nextafter(
                        value, draw(st.sampled_from([-1000, 1000])))
                value = min(max(value, -half), half)
        return value

    lon, lat = coordinate(180), coordinate(90)
    turns = draw(st.sampled_from([0, 0, 0, 0, 360, -360, 720]))
    return [lon + turns, lat]


def inside(lon, lat, code, bits, wide=0.0):
    x, y, width, height = cell(code, bits)
    slack = Fraction(2e-13 + wide)
    gap = (Fraction(lon) - x + slack) % 360
    return (gap <= width + 2 * slack
            and y - slack <= Fraction(lat) <= y + height + slack)


@st.composite
def encodings(draw):
    return {'at': draw(st.lists(positions(), min_size=1, max_size=6)),
            'bits': draw(st.integers(1, 64))}


def same_array(values):
    return np.array(values, dtype='f8')


def run_encode(case):
    bits = case['bits']
    lon, lat = same_array(case['at']).T.copy()
    codes = integers.encode(lon, lat, bits)
    require(codes.dtype == np.uint64 and codes.shape == lon.shape,
            'type or shape of the codes')
    label = None
    for i, code in enumerate(codes):
        wanted = reference(lon[i], lat[i], bits)
        require(int(code) in wanted,
                f'position ({lon[i]!r}, {lat[i]!r}) on {bits} bits gets '
                f'{int(code):x} and not {min(wanted):x}')
        if len(wanted) == 1:
            label = 'inside' if label in (None, 'inside') else 'both'
        else:
            label = 'border' if label in (None, 'border') else 'both'
    full = integers.encode(lon, lat, 64)
    require(np.array_equal(full >> np.uint64(64 - bits), codes),
            'a shorter code is not the beginning of the longer one')
    check_decode(codes, bits)
    return label


def check_decode(codes, bits):
    for rounded in (False, True):
        lon, lat = integers.decode(codes, bits, rounded)
        for i, code in enumerate(map(int, codes)):
            x, y, width, height = cell(code, bits)
            require(inside(lon[i], lat[i], code, bits),
                    f'{code:x} on {bits} bits decoded at ({lon[i]!r}, '
                    f'{lat[i]!r}) out of its cell (round={rounded})',
                    f'out-{rounded}')
            if not rounded:
                require(abs(lon[i] - float(x + width / 2)) < 1e-13
                        and abs(lat[i] - float(y + height / 2)) < 1e-13,
                        f'{code:x} on {bits} bits not decoded at its centre')
            else:
                for value, size, what in ((lon[i], width, 'longitude'),
                                          (lat[i], height, 'latitude')):
                    unit = 10.0**math.floor(math.log10(float(size)))
                    steps = value / unit
                    require(abs(steps - round(steps)) < 1e-3,
                            f'{what} {value!r} not rounded to {unit}')
        back = integers.encode(lon, lat, bits)
        if not rounded:
            require(np.array_equal(back, codes),
                    f'decoding then encoding {codes} on {bits} bits gives '
                    f'{back} (round={rounded})')
        else:
            for i, code in enumerate(map(int, back)):
                # Rounded positions may be on the corner of their cell.
                require(int(codes[i]) in reference(lon[i], lat[i], bits)
                        and code in reference(lon[i], lat[i], bits),
                        f'decoding then encoding {int(codes[i]):x} on {bits} '
                        f'bits gives {code:x} (rounded)')


@st.composite
def any_codes(draw):
    bits = draw(st.integers(1, 64))
    extreme = st.sampled_from([0, 2**bits - 1])
    return {'bits': bits, 'codes': draw(st.lists(
        st.integers(0, 2**bits - 1) | extreme, min_size=1, max_size=6))}


def run_decode(case):
    codes = np.array(case['codes'], dtype=np.uint64)
    check_decode(codes, case['bits'])
    return 'wide' if case['bits'] > 32 else 'narrow'


@st.composite
def texts(draw):
    chars = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(['at', 'code']))
    case = {'chars': chars, 'pad': draw(st.integers(0, 12 - chars)),
            'round': draw(st.booleans())}
    if kind == 'at':
        case['at'] = draw(st.lists(positions(), min_size=1, max_size=5))
    else:
        case['codes'] = draw(st.lists(
            st.text(ALPHABET, min_size=1, max_size=12), min_size=1,
            max_size=5))
    return case


def box(item):
    low, high = item.min_corner, item.max_corner
    return low.lon, low.lat, high.lon, high.lat


def run_text(case):
    if 'at' in case:
        chars = case['chars']
        lon, lat = same_array(case['at']).T.copy()
        codes = geohash.encode(lon, lat, chars)
        require(codes.dtype == f'S{chars}' and codes.shape == lon.shape,
                'type or shape of the codes')
        numbers = integers.encode(lon, lat, 5 * chars)
        for i, code in enumerate(codes):
            require(code.decode() == text(int(numbers[i]), chars),
                    f'text {code} and integer {int(numbers[i]):x} disagree')
            alone = GeoHash(lon[i], lat[i], chars)
            require(str(alone) == code.decode(),
                    f'{alone} alone and {code} in an array')
        names = [item.decode() for item in codes]
    else:
        names = case['codes']
    values, lengths = [], []
    for name in names:
        number = 0
        for char in name:
            number = number * 32 + ALPHABET.index(char)
        values.append(number)
        lengths.append(len(name))
        x, y, width, height = map(float, cell(number, 5 * len(name)))
        for kind in (GeoHash, pyinterp.GeoHash):
            item = kind.from_string(name, case['round'])
            require(str(item) == name or case['round'],
                    f'{name} becomes {item}')
            if str(item) != name:
                continue
            require(item.precision() == len(name)
                    and item.number_of_bits() == 5 * len(name),
                    'length of a code')
            got = box(item.bounding_box())
            require(np.allclose(got, (x, y, x + width, y + height),
                                rtol=0, atol=1e-12),
                    f'bounds of {name}: {got}')
            point = item.center()
            require(abs(point.lon - x - width / 2) < 1e-12
                    and abs(point.lat - y - height / 2) < 1e-12,
                    f'centre of {name}')
            for bits, size in zip(item.error_with_precision(len(name)),
                                  (width, height)):
                require(bits == size, f'size of {name}')
        # Of course the cell decoded, rounded, is still the same.
        rounded = GeoHash.from_string(name, True)
        point = rounded.center()
        got = geohash.decode(np.array([name], dtype='S'), True)
        require(inside(got[0][0], got[1][0], number, 5 * len(name)),
                f'{name} rounded out of its cell')
        require(str(rounded) == name
                or number in reference(got[0][0], got[1][0], 5 * len(name)),
                f'{name} rounded becomes {rounded}')
        whole = pyinterp.GeoHash.from_string(name)
        for twin in (pickle.loads(pickle.dumps(whole)), copy.copy(whole),
                     copy.deepcopy(whole)):
            require(str(twin) == name and type(twin) is pyinterp.GeoHash,
                    f'{name} serialised becomes {twin}')
        require(str(eval(repr(whole), {'GeoHash': pyinterp.GeoHash})) == name,
                f'{whole!r} is not {name}')
    size = min(12, max(lengths) + case['pad'])
    array = np.array(names, dtype=f'S{size}')
    lon, lat = geohash.decode(array, False)
    for i, (number, length) in enumerate(zip(values, lengths)):
        x, y, width, height = cell(number, 5 * length)
        require(abs(lon[i] - float(x + width / 2)) < 1e-12
                and abs(lat[i] - float(y + height / 2)) < 1e-12,
                f'{names[i]} in an array of {size} characters decoded at '
                f'({lon[i]}, {lat[i]})')
    if len(set(lengths)) == 1:
        want = integers.decode(np.array(values, dtype=np.uint64),
                               5 * lengths[0], case['round'])
        got = geohash.decode(array, case['round'])
        require(np.array_equal(want, got), 'text and integer decoding')
    part = array[1:]
    if part.size:
        require(np.array_equal(geohash.decode(part), (lon[1:], lat[1:])),
                'slice of codes')
    return 'positions' if 'at' in case else 'codes'


@st.composite
def malformed(draw):
    kind = draw(st.sampled_from(
        ['char', 'char', 'char', 'long', 'empty', 'nul', 'precision', 'array',
         'sizes']))
    case = {'kind': kind, 'code': draw(st.text(ALPHABET, min_size=1,
                                               max_size=12)),
            'at': draw(st.integers(0, 12)),
            'bad': draw(st.sampled_from('ailoAZEU-_ .%@/:[`{~\x7f\x01é€')
                        | st.characters(max_codepoint=255,
                                        exclude_characters=ALPHABET + '\0')),
            'precision': draw(st.sampled_from([0, 13, 14, 32, 60, 255, 2**20])),
            'n': draw(st.integers(1, 4)), 'm': draw(st.integers(1, 4))}
    return case


def refused(function, *args, kinds=(ValueError, TypeError)):
    try:
        function(*args)
    except kinds:
        return True
    return False


def run_refused(case):
    kind, code = case['kind'], case['code']
    if kind == 'char':
        at = case['at'] % len(code)
        wrong = code[:at] + case['bad'] + code[at + 1:]
        for item in (GeoHash, pyinterp.GeoHash):
            require(refused(item.from_string, wrong), f'{wrong!r} accepted')
        try:
            raw = wrong.encode('latin-1')
        except UnicodeEncodeError:
            return kind
        for rounded in (False, True):
            require(refused(geohash.decode, np.array([code.encode(), raw]),
                            rounded), f'{raw!r} decoded')
        require(refused(geohash.area, np.array([raw])), f'{raw!r} has an area')
    elif kind == 'long':
        wrong = (code * 13)[:13 + case['at']]
        require(refused(GeoHash.from_string, wrong), f'{wrong!r} accepted')
        require(refused(geohash.decode, np.array([wrong.encode()])),
                f'{wrong!r} decoded')
    elif kind == 'empty':
        for item in (GeoHash, pyinterp.GeoHash):
            require(refused(item.from_string, ''), 'empty code accepted')
    elif kind == 'nul':
        at = case['at'] % len(code)
        wrong = (code[:at] + '\0' + code[at:])[:12]
        if '\0' not in wrong:
            return None
        require(refused(GeoHash.from_string, wrong), f'{wrong!r} accepted')
    elif kind == 'precision':
        chars = case['precision']
        at = np.zeros(case['n'])
        area = pyinterp.geodetic.Box(pyinterp.geodetic.Point(0, 0),
                                     pyinterp.geodetic.Point(1, 1))
        require(refused(GeoHash, 1.0, 2.0, chars), f'{chars} characters')
        require(refused(geohash.encode, at, at, chars), f'{chars} characters')
        require(refused(GeoHash.error_with_precision, chars),
                f'size of {chars} characters')
        require(refused(geohash.bounding_boxes, area, chars),
                f'cells of {chars} characters')
        require(refused(geohash.transform, np.array([code.encode()]), chars),
                f'refined to {chars} characters')
        require(refused(GeoHash.grid_properties, area, chars),
                f'grid of {chars} characters')
        bits = 0 if chars == 0 else 64 + chars
        number = np.zeros(case['n'], dtype=np.uint64)
        require(refused(integers.encode, at, at, bits), f'{bits} bits')
        require(refused(integers.decode, number, bits), f'{bits} bits')
        require(refused(integers.neighbors, 0, bits), f'{bits} bits')
    elif kind == 'array':
        item = code.encode()
        flat = np.array([item] * (case['n'] * case['m'] * 2))
        table = flat.reshape(2 * case['n'], case['m'])
        require(refused(geohash.decode, table), 'table decoded')
        require(refused(geohash.area, table), 'area of a table')
        require(refused(geohash.transform, table, 12 if len(code) < 12 else 1),
                'table refined')
        require(refused(geohash.where, flat), 'where of a vector')
        require(refused(geohash.decode, flat.astype('U')), 'unicode decoded')
        require(refused(geohash.where, table.astype('U')), 'where of unicode')
        if flat[::2].size > 1:
            require(refused(geohash.decode, flat[::2],
                            kinds=(ValueError, TypeError, RuntimeError)),
                    'strided codes decoded')
    else:
        one, two = np.zeros(case['n']), np.zeros(case['n'] + case['m'])
        require(refused(geohash.encode, one, two, 5), 'sizes')
        require(refused(integers.encode, one, two, 5), 'sizes')
    return kind


@st.composite
def both(draw):
    return {'at': draw(st.lists(positions(), min_size=1, max_size=8)),
            'bits': draw(st.integers(1, 64))}


def run_portable(case):
    """The two implementations, with and without the BMI2 instructions."""
    other = portable.load()
    if other is None:
        return None
    bits = case['bits']
    lon, lat = same_array(case['at']).T.copy()
    left, right = integers.encode(lon, lat, bits), other.encode(lon, lat, bits)
    for i in range(lon.size):
        wanted = reference(lon[i], lat[i], bits)
        require(int(right[i]) in wanted,
                f'portable code of ({lon[i]!r}, {lat[i]!r}) on {bits} bits is '
                f'{int(right[i]):x} and not {min(wanted):x}')
    for rounded in (False, True):
        require(np.array_equal(integers.decode(left, bits, rounded),
                               other.decode(left, bits, rounded)),
                f'decoding differs (round={rounded})')
    for code in map(int, left):
        require(np.array_equal(integers.neighbors(code, bits),
                               other.neighbors(code, bits)),
                f'neighbours of {code:x} on {bits} bits differ')
    return 'same' if np.array_equal(left, right) else 'border'


FACETS = [
    Facet('encode', encodings(), run_encode, quick=1500, shards=2,
          doc='codes against exact arithmetic, shorter codes, decoding'),
    Facet('decode', any_codes(), run_decode, quick=800,
          doc='decoding of codes whatever their bits'),
    Facet('text', texts(), run_text, quick=800, shards=2,
          doc='text codes, objects, arrays of mixed lengths, serialisation'),
    Facet('refused', malformed(), run_refused, quick=600,
          doc='malformed codes, arrays and precisions'),
    Facet('portable', both(), run_portable, quick=600,
          doc='implementation for processors without BMI2'),
    defaults.facet('H01'),
    large.facet('H01'),
]
