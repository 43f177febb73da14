"""The part of xarray that pyinterp relies on, for checks without xarray.

The real one differs in many ways; only documented behaviour is imitated: named
dimensions, coordinates as arrays in the order they are given, attributes read
as members, transposition by names without copying the data.
"""
import numpy as np


class DataArray:

    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, DataArray):
            self.values = data.values
        else:
            self.values = np.asarray(data)
        if dims is None:
            if isinstance(data, DataArray):
                dims = data.dims
            elif isinstance(coords, dict):
                dims = tuple(coords)
            else:
                dims = tuple(f'dim_{i}' for i in range(self.values.ndim))
        if isinstance(dims, str):
            dims = (dims, )
        self.dims = tuple(dims)
        if len(self.dims) != self.values.ndim:
            raise ValueError('different number of dimensions on data and dims')
        if len(set(self.dims)) != len(self.dims):
            raise ValueError('repeated dimensions')
        self.name = name
        self.attrs = dict(attrs or {})
        self.coords = {}
        for key, value in dict(coords or {}).items():
            if isinstance(value, tuple):
                value = DataArray(value[1], dims=value[0],
                                  attrs=value[2] if len(value) > 2 else None)
            elif not isinstance(value, DataArray):
                array = np.asarray(value)
                value = DataArray(array, dims=(key, ) if array.ndim else ())
            for dim, size in zip(value.dims, value.shape):
                if dim not in self.dims:
                    raise ValueError(f'coordinate {key} has dimensions '
                                     f'{value.dims}, not a subset')
                if size != self.values.shape[self.dims.index(dim)]:
                    raise ValueError(f'conflicting sizes for dimension {dim}')
            value.name = key
            self.coords[key] = value

    def __getattr__(self, name):
        if name.startswith('__') or name in ('attrs', 'coords'):
            raise AttributeError(name)
        if name in self.attrs:
            return self.attrs[name]
        if name in self.coords:
            return self.coords[name]
        raise AttributeError(name)

    @property
    def shape(self):
        return self.values.shape

    @property
    def ndim(self):
        return self.values.ndim

    @property
    def size(self):
        return self.values.size

    @property
    def dtype(self):
        return self.values.dtype

    @property
    def data(self):
        return self.values

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    @property
    def indexes(self):
        return {k: v for k, v in self.coords.items() if v.dims == (k, )}

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        return len(self.values)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.values, dtype=dtype)

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.coords[key]
        return DataArray(self.values[key])

    def transpose(self, *dims):
        dims = dims or self.dims[::-1]
        if set(dims) != set(self.dims):
            raise ValueError(f'{dims} must be a permuted list of {self.dims}')
        order = [self.dims.index(item) for item in dims]
        return DataArray(self.values.transpose(order), dict(self.coords), dims,
                         self.name, self.attrs)

    def to_numpy(self):
        return self.values


class Dataset:

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars = dict(data_vars or {})
        self.attrs = dict(attrs or {})
        self.coords = {}
        for item in self.data_vars.values():
            self.coords.update(item.coords)
        for key, value in dict(coords or {}).items():
            self.coords[key] = value if isinstance(
                value, DataArray) else DataArray(value, dims=(key, ))

    def __getattr__(self, name):
        if name.startswith('__') or name in ('data_vars', 'coords'):
            raise AttributeError(name)
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name) from None

    def __getitem__(self, key):
        if key in self.data_vars:
            return self.data_vars[key]
        return self.coords[key]

    @property
    def variables(self):
        return {**self.coords, **self.data_vars}

    @property
    def sizes(self):
        result = {}
        for item in self.variables.values():
            result.update(item.sizes)
        return result
