"""A stand-in for netCDF4 in memory, holding symbolic values, by the contract of netCDF4-python.

Files live in FILES under their path name.  Numeric variables hold an array and a (concrete) mask; what was never written
reads back masked; reading gives a masked array, as netCDF4 does.  Character variables hold concrete bytes."""

import collections
import types

import netCDF4 as real
import numpy as np

from . import symma, symnp
from .core import Sym

FILES = {}


class Attributes(object):
    def __init__(self):
        self.__dict__['_attr'] = collections.OrderedDict()

    def setncattr(self, k, v):
        self._check(v)
        self._attr[k] = v

    @staticmethod
    def _check(v):
        x = v[0] if isinstance(v, (list, tuple)) and v else v
        if x is None or not (isinstance(x, (str, bytes, int, float, np.generic, Sym, np.ndarray)) or type(x).__name__ in ('int', 'float')):
            raise TypeError('illegal data type for attribute')

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def getncattr(self, k):
        try:
            return self._attr[k]
        except KeyError:
            raise AttributeError(k)

    def ncattrs(self):
        return list(self._attr)

    def __getattr__(self, k):
        if k.startswith('__') or '_attr' not in self.__dict__:
            raise AttributeError(k)
        return self.getncattr(k)


class Dimension(object):
    def __init__(self, name, size):
        self.name, self.unlimited = name, size is None
        self.size = 0 if size is None else int(size)

    def __len__(self):
        return self.size

    def isunlimited(self):
        return self.unlimited


class Variable(Attributes):
    FIELDS = ('name', 'dtype', 'dims', 'data', 'mask', 'dimensions', 'fill', 'scale', 'group')

    def __init__(self, group, name, dtype, dims, fill=None):
        Attributes.__init__(self)
        d = self.__dict__
        d['group'], d['name'], d['dtype'] = group, name, np.dtype('S1') if dtype == 'c' else np.dtype(dtype)
        d['dims'] = [group._dimension(k) for k in dims]
        d['dimensions'] = tuple(dims)
        d['fill'] = fill
        d['scale'] = True
        if fill is not None and fill is not False:
            self._attr['_FillValue'] = fill
        shape = tuple(x.size for x in d['dims'])
        if self.dtype == np.dtype('S1'):
            d['data'], d['mask'] = np.zeros(shape, 'S1'), None
        else:
            d['data'], d['mask'] = symnp.wrap(symnp.from_list([0] * int(np.prod(shape)), shape), self.dtype), symnp.wrap(symnp.from_list([True] * int(np.prod(shape)), shape), symnp.BOOL)

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    @property
    def shape(self):
        return tuple(x.size for x in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return int(np.prod(self.shape))

    def _grow(self, idx, value):
        if not any(x.unlimited for x in self.dims):
            return
        shape = list(self.data.shape)
        for k, x in enumerate(self.dims):
            if x.unlimited:
                i = idx[k] if isinstance(idx, tuple) and len(idx) > k else (idx if not isinstance(idx, tuple) and k == 0 else slice(None))
                need = x.size
                if isinstance(i, slice):
                    if i.stop is not None:
                        need = max(need, i.stop)
                    elif np.ndim(value) == len(self.dims):
                        need = max(need, (i.start or 0) + np.shape(value)[k])
                elif np.ndim(i) == 0:
                    need = max(need, int(i) + 1)
                x.size = need
                shape[k] = need
        self._fit()

    def _fit(self):
        shape = self.shape
        if tuple(self.data.shape) == shape:
            return
        fresh = Variable(self.group, self.name, self.dtype, self.dimensions)
        old = tuple(slice(0, n) for n in self.data.shape)
        fresh.data[old] = self.data
        if self.mask is not None:
            fresh.mask[old] = self.mask
        self.__dict__['data'], self.__dict__['mask'] = fresh.data, fresh.mask

    def __setitem__(self, idx, value):
        self._grow(idx, value)
        self._fit()
        if self.mask is None:
            v = np.ma.filled(value, b'') if isinstance(value, np.ma.MaskedArray) else np.asarray(value)
            self.data[idx] = v
            return
        m = symma.getmaskarray(value) if symma.is_masked_array(value) else False
        v = symma._data(value)
        pack = self._packing()
        if pack:
            v = (v - pack[1]) / pack[0]
            if self.dtype.kind in 'iu':
                v = symnp.NUMPY.around(v)
        if self.shape == () and np.size(v) == 1:
            self.data[...] = v
            self.mask[...] = m
            return
        self.data[idx] = v
        self.mask[idx] = m

    def __getitem__(self, idx):
        self._fit()
        if self.shape == ():
            idx = ()
        d = self.data[idx]
        if self.mask is None:
            return np.ma.masked_array(d) if isinstance(d, np.ndarray) else d
        pack = self._packing()
        if pack:
            d = d * pack[0] + pack[1]
        m = self.mask[idx]
        if self.shape == ():
            return np.ma.masked if bool(m) else (d.item() if isinstance(d, np.ndarray) else d)
        if not isinstance(d, np.ndarray):
            return np.ma.masked if bool(m) else d
        return symma._marr(d.copy(), m.ravel_list())

    def __len__(self):
        return self.shape[0]

    def _packing(self):
        """Scale factor and offset of packed values."""
        if not self.scale or not ('scale_factor' in self._attr or 'add_offset' in self._attr):
            return None
        return self._attr.get('scale_factor', 1.0), self._attr.get('add_offset', 0.0)

    def set_auto_maskandscale(self, flag):
        self.__dict__['scale'] = bool(flag)

    set_auto_scale = set_auto_maskandscale

    def set_auto_mask(self, flag):
        pass


class Group(Attributes):
    def __init__(self, name='/', parent=None):
        Attributes.__init__(self)
        d = self.__dict__
        d['name'], d['parent'] = name, parent
        d['groups'], d['dimensions'], d['variables'] = collections.OrderedDict(), collections.OrderedDict(), collections.OrderedDict()

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def __getitem__(self, k):
        g = self
        for part in k.strip('/').split('/'):
            g = g.groups[part] if part in g.groups else g.variables[part]
        return g

    def _dimension(self, k):
        g = self
        while g is not None:
            if k in g.dimensions:
                return g.dimensions[k]
            g = g.parent
        raise ValueError('cannot find dimension %s' % k)

    def createGroup(self, name):
        if name not in self.groups:
            self.groups[name] = Group(name, self)
        return self.groups[name]

    def createDimension(self, dimname, size=None):
        if dimname in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        self.dimensions[dimname] = Dimension(dimname, size)
        return self.dimensions[dimname]

    def createVariable(self, varname, datatype, dimensions=(), zlib=False, fill_value=None, **k):
        if varname in self.variables:
            raise RuntimeError('NetCDF: String match to name in use')
        if isinstance(dimensions, str):
            dimensions = (dimensions,)
        if isinstance(datatype, type) and issubclass(datatype, symnp._ScalarType if False else object) and hasattr(datatype, '_real'):
            datatype = datatype._real
        self.variables[varname] = Variable(self, varname, symnp.dt(datatype) if not isinstance(datatype, str) else datatype, dimensions, fill_value)
        return self.variables[varname]

    def close(self):
        pass

    sync = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def Dataset(filename, mode='r', *a, **k):
    filename = str(filename)
    if mode == 'w':
        FILES[filename] = Group()
    elif filename not in FILES:
        raise IOError('No such file: %s' % filename)
    return FILES[filename]


def stringtochar(a, **k):
    return real.stringtochar(np.asarray(a), **k)


def chartostring(a, **k):
    return real.chartostring(np.ma.filled(a, b'') if isinstance(a, np.ma.MaskedArray) else np.asarray(a), **k)


def modules():
    m = types.ModuleType('netCDF4')
    m.Dataset, m.Variable, m.Group = Dataset, Variable, Group
    m.stringtoarr, m.stringtochar, m.chartostring = real.stringtoarr, stringtochar, chartostring
    m.default_fillvals = real.default_fillvals
    m.num2date = lambda *a, **k: symnp._unsupported('num2date')
    return {'netCDF4': m}
