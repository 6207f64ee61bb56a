"""In-memory stand-in for the netCDF4 module: what the scripts use, with the errors of the real one."""
import numpy

FILES = {}
OPEN = []

def _norm(index, shape):
    """errors of the real module for integer indices outside of a dimension"""
    t = index if isinstance(index, tuple) else (index,)
    if len([i for i in t if i is not Ellipsis]) > len(shape):
        raise IndexError('too many indices')
    for i, n in zip(t, shape):
        if isinstance(i, (int, numpy.integer)) and not -n <= i < n:
            raise IndexError('index exceeds dimension bounds')

class _Attrs(object):
    def ncattrs(self):
        return list(self.__dict__['_attrs'])
    def getncattr(self, n):
        return self.__dict__['_attrs'][n]
    def setncattr(self, n, v):
        self.__dict__['_attrs'][n] = v
    def setncatts(self, d):
        for k in d: self.setncattr(k, d[k])
    def __getattr__(self, n):
        if n.startswith('__') or n not in self.__dict__.get('_attrs', {}):
            raise AttributeError(n)
        return self.__dict__['_attrs'][n]
    def __setattr__(self, n, v):
        self.__dict__['_attrs'][n] = v

class Dimension(object):
    def __init__(self, name, size):
        self.name, self.size = name, size or 0
        self._unlimited = not size
    def __len__(self):
        return self.size
    def isunlimited(self):
        return self._unlimited

class Variable(_Attrs):
    def __init__(self, ds, name, dtype, dims):
        d = self.__dict__
        d['_attrs'] = {}
        if isinstance(dims, str):
            dims = (dims,)
        for x in dims:
            if x not in ds.dimensions: raise KeyError('dimension %s is not defined' % x)
        d['_ds'], d['name'], d['dtype'], d['dimensions'] = ds, name, numpy.dtype(dtype), tuple(dims)
        d['data'] = numpy.zeros([len(ds.dimensions[x]) for x in dims], d['dtype'])
        d['written'] = numpy.zeros(d['data'].shape, bool)
    @property
    def shape(self):
        return self.data.shape
    @property
    def ndim(self):
        return self.data.ndim
    @property
    def datatype(self):
        return self.dtype
    @property
    def size(self):
        return self.data.size
    def __len__(self):
        return len(self.data)
    def __getitem__(self, i):
        _norm(i, self.data.shape)
        if not self._ds._open: raise RuntimeError('NetCDF: Not a valid ID')
        return self.data[i].copy() if isinstance(self.data[i], numpy.ndarray) else self.data[i]
    def __setitem__(self, i, v):
        if not self._ds._open: raise RuntimeError('NetCDF: Not a valid ID')
        if self._ds._mode == 'r': raise RuntimeError('NetCDF: Write to read only')
        _norm(i, self.data.shape)
        self.data[i] = numpy.asarray(v)
        self.written[i] = True

class Dataset(_Attrs):
    def __init__(self, name, mode='r', format='NETCDF4', clobber=True, **kw):
        d = self.__dict__
        d['_attrs'] = {}
        d['_mode'], d['_open'] = mode, True
        if mode == 'r':
            src = FILES[name]
            if src._open and src._mode != 'r': raise OSError('not closed')
            for k in ('_attrs', 'dimensions', 'variables', 'file_format', 'data_model'): d[k] = src.__dict__[k]
            for v in d['variables'].values(): v.__dict__['_ds'] = self
        else:
            d['dimensions'], d['variables'] = {}, {}
            d['file_format'] = d['data_model'] = format
            FILES[name] = self
        OPEN.append(self)
    def createDimension(self, name, size=None):
        if name in self.dimensions: raise RuntimeError('NetCDF: String match to name in use')
        self.dimensions[name] = Dimension(name, size)
        return self.dimensions[name]
    def createVariable(self, name, dtype, dimensions=(), **kw):
        if name in self.variables: raise RuntimeError('NetCDF: String match to name in use')
        v = self.variables[name] = Variable(self, name, dtype, dimensions)
        return v
    def set_auto_mask(self, on): pass
    def set_auto_maskandscale(self, on): pass
    def close(self):
        if not self._open: raise RuntimeError('NetCDF: Not a valid ID')
        self.__dict__['_open'] = False
    def sync(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
