"""Builds the geohash codec without the instructions of x86-64."""
import fcntl
import functools
import importlib.util
import subprocess

from . import build as _build


def path():
    builder = _build.Builder()
    source = _build.NATIVE / 'portable.cpp'
    key = [builder.cc, *builder.flags, _build._read(source),
           _build._read(_build.NATIVE / 'prelude.hpp')]
    for item in sorted(
        {*_build._closure(_build.CORE / 'lib/geohash/int64.cpp'),
         *_build._closure(_build.CORE / 'module/geohash/int64.cpp')} |
        set(_build._closure(source))):
        key.append(_build._read(item))
    for item in sorted(_build.CORE.glob(_build.GEODETIC_LIBS)):
        for other in _build._closure(item):
            key.append(_build._read(other))
    out = _build.BUILD / 'so' / f'portable-{_build._sha(*key)}' / 'portable.so'

    def make(tmp):
        libs = [builder.compile(item)
                for item in sorted(_build.CORE.glob(_build.GEODETIC_LIBS))]
        result = subprocess.run(
            [builder.cc, *builder.flags, *builder.inc,
             '-include', str(_build.NATIVE / 'prelude.hpp'),
             f'-I{_build.CORE}', '-shared', str(source), *map(str, libs),
             '-o', str(tmp), '-lopenblas', '-lpthread'],
            capture_output=True, text=True)
        if result.returncode:
            raise _build.BuildError(result.stderr[-3000:])

    return _build._atomic(out, make)


@functools.lru_cache(None)
def load():
    with open(_build.BUILD / 'lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            where = path()
        except _build.BuildError as err:
            # Internal interfaces have changed: nothing to compare.
            print(f'{__name__}: not built: {str(err)[:300]}', flush=True)
            return None
    spec = importlib.util.spec_from_file_location('portable', str(where))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module
