"""Builds the parts of the C++ library that have no Python binding."""
import fcntl
import functools
import importlib.util
import subprocess

from . import build as _build


def path():
    builder = _build.Builder()
    source = _build.NATIVE / 'templates.cpp'
    key = [builder.cc, *builder.flags,
           _build._read(_build.NATIVE / 'prelude.hpp')]
    for item in sorted(set(_build._closure(source)) | {source}):
        key.append(_build._read(item))
    out = (_build.BUILD / 'so' / f'templates-{_build._sha(*key)}' /
           'templates.so')

    def make(tmp):
        result = subprocess.run(
            [builder.cc, *builder.flags, *builder.inc,
             '-include', str(_build.NATIVE / 'prelude.hpp'), '-shared',
             str(source), '-o', str(tmp), '-lopenblas', '-lpthread'],
            capture_output=True, text=True)
        if result.returncode:
            raise _build.BuildError(result.stderr[-3000:])

    return _build._atomic(out, make)


@functools.lru_cache(None)
def load():
    with open(_build.BUILD / 'lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            where = path()
        except _build.BuildError as err:
            # Internal interfaces have changed: nothing to compare.
            print(f'{__name__}: not built: {str(err)[:300]}', flush=True)
            return None
    spec = importlib.util.spec_from_file_location('templates', str(where))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module
