"""Builds pyinterp's Python extension from the repository's working tree.

Object files are cached by the content of everything that goes into them
(compiler, flags, the source and every header of the repository it reaches), so
a stale object can never be used.  With an empty cache a build takes 30-45 s.
"""
from __future__ import annotations

import concurrent.futures as cf
import fcntl
import hashlib
import os
import pathlib
import re
import shutil
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
NATIVE = VERIF / 'native'
BUILD = pathlib.Path(os.environ.get('VF_BUILD', VERIF / 'build'))
REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
CORE = REPO / 'src/pyinterp/core'

BASE_FLAGS = [
    '-std=c++17', '-DNDEBUG', '-DHAVE_IEC559', '-DEIGEN_USE_BLAS', '-w',
    '-fPIC', '-fvisibility=hidden', '-D_GLIBCXX_ASSERTIONS'
]
SYS_INC = ['-I/usr/include/python3.12', '-I/usr/include/eigen3']

GEODETIC_LIBS = 'lib/geodetic/*.cpp'
GEOHASH_LIBS = 'lib/geohash/*.cpp'
#: What each part of the extension needs: module sources and library sources.
PARTS = {
    'enum': ['module/enum.cpp'],
    'dateutils': ['module/dateutils.cpp'],
    'geodetic': ['module/geodetic.cpp', GEODETIC_LIBS],
    'period': ['module/period.cpp'],
    'axis': ['module/axis.cpp'],
    'binning': ['module/binning.cpp'],
    'histogram2d': ['module/histogram2d.cpp'],
    'bivariate_interpolator': ['module/bivariate_interpolator.cpp'],
    'descriptive_statistics': ['module/descriptive_statistics.cpp'],
    'interpolate1d': ['module/interpolate1d.cpp'],
    'grid': ['module/grid.cpp'],
    'bivariate': ['module/bivariate.cpp'],
    'trivariate': ['module/trivariate.cpp'],
    'quadrivariate': ['module/quadrivariate.cpp'],
    'bicubic': ['module/bicubic.cpp'],
    'fill': ['module/fill.cpp'],
    'rtree': ['module/rtree.cpp'],
    'streaming_histogram': ['module/streaming_histogram.cpp'],
    'geohash_int64': ['module/geohash/int64.cpp', GEOHASH_LIBS],
    'geohash_string': ['module/geohash/string.cpp', GEOHASH_LIBS],
    'geohash_class': ['module/geohash.cpp', GEOHASH_LIBS],
}
DEPS = {
    'axis': ['dateutils'],
    'period': ['dateutils'],
    'grid': ['axis'],
    'fill': ['grid'],
    'bivariate': ['grid', 'bivariate_interpolator'],
    'trivariate': ['grid', 'bivariate_interpolator'],
    'quadrivariate': ['grid', 'bivariate_interpolator'],
    'bicubic': ['grid'],
    'interpolate1d': ['axis'],
    'binning': ['axis', 'geodetic'],
    'histogram2d': ['axis'],
    'rtree': ['geodetic'],
    'geohash_string': ['geodetic', 'geohash_int64', 'geohash_class'],
    'geohash_int64': ['geodetic'],
    'geohash_class': ['geodetic'],
}


def closure_parts(parts):
    result, todo = set(), list(parts)
    while todo:
        item = todo.pop()
        if item not in result:
            result.add(item)
            todo += DEPS.get(item, [])
    return result


INCLUDE_RE = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)


class BuildError(Exception):
    pass


def _sha(*items) -> str:
    h = hashlib.sha256()
    for item in items:
        if isinstance(item, str):
            item = item.encode()
        h.update(len(item).to_bytes(8, 'little'))
        h.update(item)
    return h.hexdigest()[:32]


_READ: dict[pathlib.Path, bytes] = {}


def _read(path: pathlib.Path) -> bytes:
    if path not in _READ:
        _READ[path] = path.read_bytes()
    return _READ[path]


def _closure(source: pathlib.Path) -> list[pathlib.Path]:
    """Repository files reached from a source through quoted includes."""
    inc = CORE / 'include'
    seen, todo = set(), [source]
    while todo:
        path = todo.pop()
        if path in seen:
            continue
        seen.add(path)
        for name in INCLUDE_RE.findall(_read(path).decode(errors='replace')):
            for base in (path.parent, inc):
                target = (base / name)
                if target.is_file():
                    todo.append(target)
                    break
    return sorted(seen)


def _atomic(path: pathlib.Path, make) -> pathlib.Path:
    """Creates path with make(tmp) exactly once, safe against crashes."""
    if path.exists():
        return path
    path.parent.mkdir(parents=True, exist_ok=True)
    tmp = path.with_name(path.name + f'.tmp{os.getpid()}')
    make(tmp)
    os.replace(tmp, path)
    return path


def pybind_include() -> pathlib.Path:
    script = NATIVE / 'patch_pybind.py'
    key = _sha(script.read_bytes(),
               pathlib.Path('/usr/include/pybind11/numpy.h').read_bytes())
    out = BUILD / 'inc' / key
    if not out.exists():
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = out.with_name(out.name + f'.tmp{os.getpid()}')
        tmp.mkdir()
        subprocess.run([sys.executable, str(script), str(tmp)], check=True)
        try:
            os.replace(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Builder:

    def __init__(self, sanitize: bool = False, opt: str = '-O0'):
        self.cc = 'clang++'
        self.flags = [opt, *BASE_FLAGS]
        self.sanitize = sanitize
        if sanitize:
            self.flags += [
                '-g1', '-fno-omit-frame-pointer',
                '-fsanitize=address', '-shared-libasan'
            ]
        self.pyb = pybind_include()
        self.inc = [
            f'-I{NATIVE}', f'-I{self.pyb}', f'-I{CORE / "include"}', *SYS_INC
        ]

    def _run(self, cmd, what):
        res = subprocess.run(cmd, capture_output=True, text=True)
        if res.returncode != 0:
            raise BuildError(f'{what}: {res.stderr[-4000:]}')

    def pch(self) -> pathlib.Path:
        key = _sha(self.cc, *self.flags, _read(NATIVE / 'pch.hpp'),
                   _read(NATIVE / 'prelude.hpp'), str(self.pyb), str(NATIVE))
        return _atomic(
            BUILD / 'pch' / f'{key}.pch', lambda tmp: self._run([
                self.cc, *self.flags, '-fpch-instantiate-templates', *self.inc,
                '-x', 'c++-header',
                str(NATIVE / 'pch.hpp'), '-o',
                str(tmp)
            ], 'precompiled header'))

    def obj_path(self, source: pathlib.Path, extra=()) -> pathlib.Path:
        parts = [self.cc, *self.flags, *extra, _read(NATIVE / 'prelude.hpp')]
        for item in _closure(source):
            try:
                parts.append(str(item.relative_to(CORE)))
            except ValueError:
                parts.append(item.name)
            parts.append(_read(item))
        return BUILD / 'obj' / f'{source.stem}-{_sha(*parts)}.o'

    def compile(self, source: pathlib.Path, pch=None, extra=()):
        out = self.obj_path(source, extra)

        def make(tmp):
            pre = ['-include-pch', str(pch)] if pch else [
                '-include', str(NATIVE / 'prelude.hpp')
            ]
            try:
                self._run([
                    self.cc, *self.flags, *self.inc, *pre, *extra, '-c',
                    str(source), '-o',
                    str(tmp)
                ], str(source))
            except BuildError:
                # The project itself is built with g++: give it a chance on
                # sources clang refuses.
                if self.sanitize:
                    raise
                self._run([
                    'g++', *self.flags, *self.inc, '-include',
                    str(NATIVE / 'prelude.hpp'), *extra, '-c',
                    str(source), '-o',
                    str(tmp)
                ], str(source))

        return _atomic(out, make)

    def build(self, parts=None) -> pathlib.Path:
        """Builds the extension (all of it if parts is None)."""
        if parts is not None:
            try:
                return self._build(parts)
            except BuildError as exc:
                print(f'# partial build failed, full build ({exc})'[:300],
                      file=sys.stderr)
        return self._build(None)

    def _sources(self, parts):
        if parts is None:
            return sorted(
                item for pat in ('module/*.cpp', 'module/*/*.cpp', 'lib/*.cpp',
                                 'lib/*/*.cpp') for item in CORE.glob(pat)
                if item != CORE / 'module/main.cpp'), None
        parts = closure_parts(parts) | {'enum'}
        found = set()
        for part in parts:
            for pat in PARTS[part]:
                items = list(CORE.glob(pat))
                if not items:
                    raise BuildError(f'no {pat}')
                found.update(items)
        stubs = '#include "prelude.hpp"\n#include <pybind11/pybind11.h>\n'
        for part in sorted(set(PARTS) - parts):
            stubs += f'void init_{part}(pybind11::module_ &) {{}}\n'
        return sorted(found), stubs

    def _build(self, parts) -> pathlib.Path:
        sources, stubs = self._sources(parts)
        BUILD.mkdir(parents=True, exist_ok=True)
        main = CORE / 'module/main.cpp'
        main_extra = ['-include', str(NATIVE / 'main_wrapper.hpp')]
        self.flags_main = _sha(_read(NATIVE / 'main_wrapper.hpp'))
        jobs = []
        stub_src = None
        if stubs is not None:
            stub_src = BUILD / 'stub' / f'stubs-{_sha(stubs)}.cpp'
            _atomic(stub_src, lambda tmp: tmp.write_text(stubs))
        need = [
            s for s in sources if not self.obj_path(s).exists()
        ]
        weight = {
            'module/geodetic.cpp': 9, 'module/rtree.cpp': 8,
            'module/grid.cpp': 6, 'module/binning.cpp': 6,
            'lib/geodetic/multipolygon.cpp': 5,
            'lib/geodetic/polygon.cpp': 5, 'module/histogram2d.cpp': 5,
            'module/fill.cpp': 5,
        }

        def rank(source):
            return -weight.get(str(source.relative_to(CORE)), 1)

        need.sort(key=rank)
        workers = os.cpu_count() or 2
        with cf.ThreadPoolExecutor(workers) as pool:
            pch = None
            futures = []
            early = []
            if len(need) > 10:
                # The biggest sources start at once; the others wait for the
                # precompiled header.
                pch_future = pool.submit(self.pch)
                early = need[:2]
                futures += [pool.submit(self.compile, s) for s in early]
            mainf = pool.submit(self.compile, main, None, main_extra)
            stubf = pool.submit(self.compile, stub_src) if stub_src else None
            if len(need) > 10:
                pch = pch_future.result()
            futures += [
                pool.submit(self.compile, s, pch) for s in need
                if s not in early
            ]
            for item in futures:
                item.result()
            objs = [self.obj_path(s) for s in sources] + [mainf.result()]
            if stubf is not None:
                objs.append(stubf.result())
        key = _sha(self.cc, *self.flags, *[o.name for o in objs])
        out = BUILD / 'so' / f'core-{key}' / 'core.so'

        def link(tmp):
            self._run([
                self.cc, '-shared',
                *(['-fsanitize=address', '-shared-libasan']
                  if self.sanitize else []), '-o',
                str(tmp), *map(str, objs), '-lopenblas', '-lpthread'
            ], 'link')
            res = subprocess.run(['nm', '-DCu', str(tmp)],
                                 capture_output=True,
                                 text=True)
            missing = [
                line for line in res.stdout.splitlines()
                if 'pyinterp::' in line or ' init_' in line
            ]
            if missing:
                raise BuildError('undefined: ' + '; '.join(missing[:5]))

        return _atomic(out, link)


def build(parts=None, sanitize=False) -> pathlib.Path:
    """Builds under a lock, so that concurrent checks share the work."""
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / 'lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return Builder(sanitize).build(parts)


if __name__ == '__main__':
    start = time.time()
    print(build(sys.argv[1:] or None), f'{time.time() - start:.1f}s')
