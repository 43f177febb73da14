"""Imports pyinterp from the repository's sources with a freshly built core.

The Python files are imported in place; the compiled core is preloaded as
``pyinterp.core``.  dask and xarray are not installed in the sandbox: small
functional stand-ins (vf/standins) satisfy the imports.  In a partial build the
classes that were not built are replaced by placeholders.
"""
from __future__ import annotations

import importlib.util
import os
import pathlib
import sys
import types

from . import build as _build

sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def _placeholder_getattr(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return type(f'NotBuilt_{name}', (), {})


def load(so: str | os.PathLike, partial: bool):
    """Returns the pyinterp package backed by the given extension."""
    here = pathlib.Path(__file__).resolve().parent
    sys.path.insert(0, str(here / 'standins'))
    sys.path.insert(0, str(_build.REPO / 'src'))
    version = types.ModuleType('pyinterp.version')
    version.release = lambda: '0.0.0'
    version.date = lambda: 'never'
    sys.modules['pyinterp.version'] = version
    spec = importlib.util.spec_from_file_location('pyinterp.core', str(so))
    core = importlib.util.module_from_spec(spec)
    sys.modules['pyinterp.core'] = core
    spec.loader.exec_module(core)
    if partial:
        for name, module in list(sys.modules.items()):
            if name == 'pyinterp.core' or name.startswith('pyinterp.core.'):
                module.__dict__.setdefault('__getattr__',
                                           _placeholder_getattr)
    import pyinterp
    pyinterp.core = core
    return pyinterp
