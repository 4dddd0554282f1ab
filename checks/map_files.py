"""Small real PCRaster and netCDF map files, and a stand-in for netCDF4.Dataset that can hold symbolic arrays."""
import os
import numpy as np
import numpy.ma as ma
import netCDF4
from osgeo import gdal

gdal.UseExceptions()
PCR_MV = -3.4028234663852886e+38


_CACHE = {}


def pcr_map(path, values):
    """values: nested list with None where missing"""
    key = repr(values)
    if key not in _CACHE:
        _write_pcr(path, values)
        with open(path, 'rb') as f:
            _CACHE[key] = f.read()
    with open(path, 'wb') as f:
        f.write(_CACHE[key])


def _write_pcr(path, values):
    a = np.array([[PCR_MV if v is None else v for v in row] for row in values], dtype='f4')
    m = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, gdal.GDT_Float32)
    m.SetGeoTransform((5, 1, 0, 50, 0, -1))
    b = m.GetRasterBand(1)
    b.SetNoDataValue(PCR_MV)
    b.WriteArray(a)
    b.FlushCache()
    out = gdal.GetDriverByName('PCRaster').CreateCopy(path, m)
    out.FlushCache()
    del out, b, m
    for x in (path + '.aux.xml',):
        if os.path.exists(x):
            os.unlink(x)


def nc_map(path, *a):
    key = repr(a)
    if key not in _CACHE:
        _write_nc(path, *a)
        with open(path, 'rb') as f:
            _CACHE[key] = f.read()
    with open(path, 'wb') as f:
        f.write(_CACHE[key])


def _write_nc(path, values, lats, lons, fill=-9999.0, attr=True):
    ds = netCDF4.Dataset(path, 'w')
    ds.createDimension('lat', len(lats))
    ds.createDimension('lon', len(lons))
    ds.createVariable('lat', 'f8', ('lat',))[:] = lats
    ds.createVariable('lon', 'f8', ('lon',))[:] = lons
    v = ds.createVariable('area', 'f8', ('lat', 'lon'), fill_value=fill if attr else None)
    v[:] = np.array([[fill if x is None else x for x in row] for row in values], dtype='f8')
    ds.close()


LATS, LONS = [49.5, 48.5], [5.5, 6.5, 7.5]


def make_map(d, name, kind, missing, values=None):
    """a map of 2x3 cells in folder d, some of them missing; gives its file name"""
    rows = [[None if 3 * i + j in missing else (values[3 * i + j] if values else 1.0 + j) for j in range(3)] for i in range(2)]
    if kind == 'map':
        pcr_map(f'{d}/{name}.map', rows)
        return name + '.map'
    nc_map(f'{d}/{name}.nc', rows, LATS, LONS, *{'nc': (-9999.0, True), 'nc-nan': (float('nan'), True)}[kind])
    return name + '.nc'


def make_target(d, kind):
    """(lat map, lon map, latitudes, longitudes)"""
    if kind == 'map':
        pcr_map(d + '/lat.map', [[x] * 3 for x in LATS])
        pcr_map(d + '/lon.map', [LONS] * 2)
        return 'lat.map', 'lon.map', LATS, LONS
    nc_map(d + '/grid.nc', [[1.0] * 3] * 2, LATS, LONS)
    return 'grid.nc', 'grid.nc', LATS, LONS


class FakeVar:
    def __init__(self, ds, name, datatype, dims, fill_value):
        object.__setattr__(self, 'attrs', {})
        object.__setattr__(self, 'info', (ds, name, np.dtype(datatype), tuple(dims)))
        object.__setattr__(self, 'rows', {})
        object.__setattr__(self, 'auto', True)
        if fill_value is not None:
            self.attrs['_FillValue'] = fill_value

    dtype = property(lambda self: self.info[2])
    datatype = dtype
    dimensions = property(lambda self: self.info[3])
    name = property(lambda self: self.info[1])

    def __setattr__(self, k, v):
        self.attrs[k] = v

    def __getattr__(self, k):
        try:
            return self.attrs[k]
        except KeyError:
            raise AttributeError(k)

    def setncattr(self, k, v):
        self.attrs[k] = v

    def setncatts(self, d):
        self.attrs.update(d)

    def getncattr(self, k):
        return self.attrs[k]

    def ncattrs(self):
        return list(self.attrs)

    def set_auto_maskandscale(self, b):
        object.__setattr__(self, 'auto', bool(b))

    def set_auto_scale(self, b):
        object.__setattr__(self, 'auto', bool(b))

    def set_auto_mask(self, b):
        pass

    @property
    def shape(self):
        return np.shape(self.array())

    def array(self):
        keys = sorted(self.rows)
        if keys == ['all']:
            return self.rows['all']
        return [self.rows[k] for k in keys]

    def __getitem__(self, k):
        return np.array(self.array(), dtype=object)[k]

    def __setitem__(self, k, v):
        dims = self.info[3]
        if not isinstance(k, tuple):
            k = (k,)
        v = self.pack(v)
        full = slice(None)
        if all(x == full or x is Ellipsis for x in k):
            if len(dims) > 1:
                for i in range(len(v)):
                    self.rows[i] = v[i]
            else:
                self.rows['all'] = list(v)
        elif isinstance(k[0], (int, np.integer)) and all(x == full or x is Ellipsis for x in k[1:]):
            self.rows[int(k[0])] = v
        else:
            raise NotImplementedError('assignment to a part of a variable')

    def pack(self, v):
        """as netCDF4 does with automatic masking and scaling; otherwise masked cells get the fill value"""
        from engine.nplike import cast
        v = v if isinstance(v, np.ndarray) else np.array(v)
        mask = ma.getmaskarray(v) if isinstance(v, ma.MaskedArray) else np.zeros(v.shape, dtype=bool)
        d = np.asarray(v.data if isinstance(v, ma.MaskedArray) else v).astype(object)
        fill = self.attrs.get('missing_value', self.attrs.get('_FillValue'))
        kind = self.dtype.kind
        out = np.empty(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            x = d[i]
            if mask[i]:
                out[i] = fill
                continue
            if self.auto and ('scale_factor' in self.attrs or 'add_offset' in self.attrs):
                x = (x - self.attrs.get('add_offset', 0.0)) / self.attrs.get('scale_factor', 1.0)
                if kind in 'iu':
                    x = x.rint() if hasattr(x, 'rint') else round(x)
            if kind in 'iu':
                x = int(x) if isinstance(x, (float, np.floating, np.integer)) else x.__trunc__() if hasattr(x, '__trunc__') else x
            elif kind == 'f' and isinstance(x, (float, np.floating)):
                x = float(self.dtype.type(x))
            out[i] = x
        return out


class FakeNetCDF:
    def __init__(self):
        self.files = {}
        fake = self

        class Dataset:
            def __init__(self, path, mode='r', format='NETCDF4', **k):
                object.__setattr__(self, 'attrs', {})
                object.__setattr__(self, 'variables', {})
                object.__setattr__(self, 'dimensions', {})
                object.__setattr__(self, 'format', format)
                object.__setattr__(self, 'closed', False)
                open(path, 'wb').close()
                fake.files[path] = self

            def __setattr__(self, k, v):
                self.attrs[k] = v

            def __getattr__(self, k):
                try:
                    return self.attrs[k]
                except KeyError:
                    raise AttributeError(k)

            def __getitem__(self, k):
                return self.variables[k]

            def setncattr(self, k, v):
                self.attrs[k] = v

            def createDimension(self, name, size=None):
                self.dimensions[name] = size

            def createVariable(self, name, datatype, dimensions=(), fill_value=None, **k):
                if self.format == 'NETCDF4_CLASSIC' and str(np.dtype(datatype))[0] == 'u' or (self.format == 'NETCDF4_CLASSIC' and np.dtype(datatype) == np.int64):
                    raise RuntimeError('NetCDF: Attempting netcdf-4 operation on strict nc3 netcdf-4 file')
                v = self.variables[name] = FakeVar(self, name, datatype, dimensions, fill_value)
                return v

            def sync(self):
                pass

            def close(self):
                if self.closed:
                    raise RuntimeError('NetCDF: Not a valid ID')
                object.__setattr__(self, 'closed', True)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        self.Dataset = Dataset

    def read(self, path):
        ds = self.files[path]
        return dict(closed=ds.closed, attrs=ds.attrs, vars={k: dict(dims=v.info[3], dtype=v.info[2], attrs=v.attrs, data=v.array()) for k, v in ds.variables.items()})


def read_back(path):
    try:
        ds = netCDF4.Dataset(path)
    except OSError:
        return dict(closed=False, attrs={}, vars={})
    ds.set_auto_maskandscale(False)
    out = dict(closed=True, attrs={}, vars={})
    for k, v in ds.variables.items():
        out['vars'][k] = dict(dims=v.dimensions, dtype=v.dtype, attrs={a: v.getncattr(a) for a in v.ncattrs()}, data=np.array(v[:]))
    ds.close()
    return out
