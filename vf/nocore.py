"""Lets a check module be imported for its description only (no extension)."""
import pathlib
import sys
import types

sys.dont_write_bytecode = True


class _Any(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Stub()


class _Stub:

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Stub()

    def __call__(self, *args, **kwargs):
        return _Stub()


for _name in ('pyinterp', 'pyinterp.core', 'pyinterp.fill',
              'pyinterp.geodetic', 'pyinterp.geohash', 'pyinterp.period',
              'pyinterp.orbit', 'pyinterp.grid', 'pyinterp.interpolator',
              'pyinterp.geohash.int64', 'pyinterp.core.geodetic',
              'pyinterp.core.geohash', 'pyinterp.core.dateutils',
              'pyinterp.core.fill', 'pyinterp.backends',
              'pyinterp.backends.xarray', 'pyinterp.statistics',
              'pyinterp.rtree', 'pyinterp.binning', 'pyinterp.interface',
              'pyinterp.histogram2d'):
    _mod = _Any(_name)
    _mod.__path__ = []
    sys.modules[_name] = _mod
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / 'standins'))
