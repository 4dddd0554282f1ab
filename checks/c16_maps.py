"""C16: maps and API output mark missing cells exactly and keep valid cells."""
import osgeo.gdal as gdal
import pyg2p.main.interpolation.grib_interpolation_lib as gil
import pyg2p.main.manipulation.correction as corr
import pyg2p.main.readers.netcdf as rnc
from engine.runner import Harness
from engine.lib import t_and, t_not
from .run_common import *
from .map_files import *

ASSUMPTIONS = ['GDAL in symbolic runs: in-memory copies of the clone and written maps are stand-ins that keep arrays as they are given; witnesses of the paths are written and read back by the real GDAL (32 bit floats)',
               'interpolation is a stand-in giving any value and any kind of missing cell (masked, NaN, missing value of the target coordinates)', 'clone maps hold REAL values, as the README asks']


class FakeBand:
    def __init__(self, ds):
        self.ds, self.nodata = ds, None

    def SetNoDataValue(self, v):
        self.nodata = v

    def GetNoDataValue(self):
        return self.nodata

    def WriteArray(self, a, *r, **k):
        self.ds.array = np.array(ma.filled(a, 0.0) if isinstance(a, ma.MaskedArray) else a, dtype=object)

    def ReadAsArray(self, *a, **k):
        return self.ds.array


class FakeMem:
    def __init__(self, src):
        b = src.GetRasterBand(1)
        self.RasterXSize, self.RasterYSize = src.RasterXSize, src.RasterYSize
        self.array, self.band = b.ReadAsArray(), FakeBand(self)
        self.band.nodata = b.GetNoDataValue()

    def GetRasterBand(self, i):
        assert i == 1
        return self.band

    def FlushCache(self):
        pass


class FakeGdal:
    """gdal for the writer: clone maps are read for real, new maps are recorded"""
    def __init__(self):
        self.maps = []

    def __getattr__(self, n):
        return getattr(gdal, n)

    def GetDriverByName(self, name):
        g = self

        class Driver:
            def Register(self):
                pass

            def CreateCopy(self, path, ds, *a, **k):
                if name == 'MEM':
                    return FakeMem(ds)
                assert name == 'PCRaster'
                path = path.decode() if isinstance(path, bytes) else str(path)
                g.maps.append((path, np.array(ds.array), ds.band.nodata))
                return FakeMem(ds)
        return Driver()


def read_maps(d):
    out = []
    for n in sorted(os.listdir(d)):
        if n.endswith('.xml'):
            continue
        ds = gdal.Open(d + '/' + n)
        b = ds.GetRasterBand(1)
        out.append((d + '/' + n, b.ReadAsArray(), b.GetNoDataValue()))
    return out


def field(t, pattern, i, mv):
    vals = [t.real(f'v{i}_{j}', -1000, 1000) if c == 'v' else {'n': float('nan'), 'm': mv, 'k': 77.0}[c] for j, c in enumerate(pattern)]
    return arr(t, vals, [c == 'k' for c in pattern] if 'k' in pattern else None, (2, 3)), [c != 'v' for c in pattern], vals


def masks(t, patterns, through, clone_kind, target, correct):
    with Scratch() as d:
        home = Home(d)
        outside = t.choice('cells outside the clone', [(), (0,), (1, 5)])
        clone = make_map(d, 'clone', clone_kind, outside)
        lat, lon, lats, lons = make_target(d, target)
        n = len(patterns)
        msgs = [message(arr(t, [1.0, 2.0]), (6 * i, 6 * i)) for i in range(n)]
        home.gribs({'a.grb': msgs})
        g, fields = Grib({'a.grb': msgs}), []
        shift = t.real('correction', -10, 10) if correct else 0.0

        def scipy(self, lats_, longs, v, grid_id, geo=None):
            i = len(fields)
            fields.append(field(t, patterns[i], i, self.mv_output))
            return fields[-1][0].copy()

        class Correct:
            def correct(self, values):
                out = values.copy()
                flat, m = out.reshape(-1), ma.getmaskarray(out).reshape(-1)
                for j in range(flat.size):
                    x = ma.getdata(flat)[j]
                    if not m[j] and not (isinstance(x, (float, np.floating)) and x != x):
                        ma.getdata(flat)[j] = x + shift
                return out
        extra = [(interp.Interpolator, 'interpolate_scipy', scipy), (rnc, 'np', np), (corr.Corrector, 'get_instance', classmethod(lambda cls, *a, **k: Correct()))]
        fake = FakeGdal()
        if t.symbolic:
            extra.append((wpcr, 'gdal', fake))
        param = {'@correctionFormula': 'p', '@gem': 'z', '@demMap': 'dem.map'} if correct else {}
        with Patched(*home.stubs(), *g.stubs(), *extra):
            if through == 'command':
                ctx = context.ExecutionContext(home.argv(param=param, out={'@format': 'pcraster', '@cloneMap': clone}, interpolation={'@latMap': lat, '@lonMap': lon}))
                c = controller.Controller(ctx)
                c.execute()
                c.close()
                got = fake.maps if t.symbolic else read_maps(d + '/out')
                arrays = [(a, nd) for _, a, nd in got]
                tol = 1e-3
            else:
                p = api.Pyg2pApi(api.ApiContext(api_conf(d, param, clone, lat, lon)))
                out = p.execute()
                t.check('steps', [k.end_step for k in out] == [6 * i for i in range(n)])
                arrays = [(a, p.mv) for a in out.values()]
                tol = 1e-9
        t.check('one array per field', len(arrays) == n)
        t.cover('checked')
        for (a, mv), (_, miss, vals) in zip(arrays, fields):
            t.check('missing value of the clone', mv == PCR_MV if clone_kind == 'map' else True)
            t.check('shape of the clone', np.shape(a) == (2, 3))
            t.check('not masked', not isinstance(a, ma.MaskedArray))
            for j in range(6):
                x = a[j // 3][j % 3]
                if not is_sym_(x):
                    x = float(x)
                if miss[j] or j in outside:
                    t.check('missing value where there is no value or outside the clone', (x == mv) if not is_sym_(x) else False)
                else:
                    t.check('value kept', t_and(x - vals[j] - shift <= tol, vals[j] + shift - x <= tol))


def is_sym_(x):
    from engine.core import is_sym
    return is_sym(x)


def api_conf(d, param, clone, lat, lon, mode='nearest', **kw):
    conf = dict(loggerLevel='ERROR', inputFile=d + '/a.grb', start=None, end=None, perturbationNumber=None, fmap=1, ext=1, OutMaps=dict(cloneMap=d + '/' + clone, unitTime='6',
                Interpolation=dict(latMap=d + '/' + lat, lonMap=d + '/' + lon, mode=mode)), Parameter=dict(shortName='tp'))
    if param:
        conf['Parameter'].update(correctionFormula='p', gem='z', demMap=d + '/dem.map')
    conf.update(kw)
    return conf


def tables(t, through, mode, resolutions):
    """GRIB interpolation modes create their table from a message of the file when there is none"""
    with Scratch() as d:
        home = Home(d)
        make_map(d, 'clone', 'map', ())
        lat, lon, lats, lons = make_target(d, 'map')
        ns = [4, 5][:resolutions]
        msgs, vals = [], []
        for r, k in enumerate(ns):
            vals.append([t.real(f'v{r}_{i}', -1000, 1000) for i in range(k)])
            m = message(arr(t, vals[-1]), (6 * r, 6 * r), Ni=k, Nj=1 + r)
            m['_res'] = r
            msgs.append(m)
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs})
        pick = [t.choice(f'nearest of resolution {r}', list(range(k))) for r, k in enumerate(ns)]

        def find(gid, la, lo, *a, **k):
            r = g.msg(gid)['_res']
            j = LATS.index(la) * 3 + LONS.index(lo)
            i = (pick[r] + j) % ns[r]
            if k.get('npoints', a[1] if len(a) > 1 else 1) == 4 or mode == 'grib_invdist':
                return [dict(index=i, distance=0.0 if q == 0 else 1000.0 + q, lat=0, lon=0) for q in range(4)]
            return [dict(index=i, distance=0.5)]
        extra = [(interp.gil if hasattr(interp, 'gil') else gil, 'codes_grib_find_nearest', find)] if 'codes_grib_find_nearest' in vars(gil) else []
        extra.append((eccodes, 'codes_grib_find_nearest', find))
        fake = FakeGdal()
        if t.symbolic:
            extra.append((wpcr, 'gdal', fake))
        with Patched(*home.stubs(), *g.stubs(), *extra):
            if through == 'command':
                ctx = context.ExecutionContext(home.argv('-B', interpolation={'@mode': mode}, out={'@format': 'pcraster'}))
                c = controller.Controller(ctx)
                c.execute()
                c.close()
                arrays = [a for _, a, _ in (fake.maps if t.symbolic else read_maps(d + '/out'))]
                tol = 1e-3
            else:
                arrays = list(api.Pyg2pApi(api.ApiContext(api_conf(d, {}, 'clone.map', 'lat.map', 'lon.map', mode, createIntertable=True, interpolationParallel=False))).execute().values())
                tol = 1e-9
        t.check('one array per field', len(arrays) == resolutions)
        t.cover('interpolated')
        for r, a in enumerate(arrays):
            for j in range(6):
                x, y = a[j // 3][j % 3], vals[r][(pick[r] + j) % ns[r]]
                x = x if is_sym_(x) else float(x)
                t.check('value of the nearest point of its own grid', t_and(x - y <= tol, y - x <= tol))


PAT = (('vvvvvv',), ('vnvmvk', 'kvvnvv'), ('nvmvvm',), ('kkkvvv', 'vvvvvn'))
HARNESSES = [
    Harness('missing cells', masks, [dict(patterns=p, through=h, clone_kind='map', target=g, correct=c) for p in PAT for h in ('command', 'api') for g, c in (('map', False), ('nc', False), ('map', True))],
            ['PCRasterWriter.write/_mask_values', 'Pyg2pApi.execute/_mask_values', 'Interpolator.interpolate', 'OutputWriter._write_maps_pcraster', 'PCRasterReader'],
            bounds='1 or 2 fields of 2x3 cells, any values, cells missing in three ways, no or some cells outside the clone, PCRaster and netCDF coordinates, with and without a correction',
            stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'Corrector', 'gdal of the writer (symbolic runs only)'], covers=['checked']),
    Harness('table creation', tables, [dict(through=h, mode=m, resolutions=r) for h in ('command', 'api') for m in ('grib_nearest', 'grib_invdist') for r in (1, 2)],
            ['Interpolator.grib_nearest/grib_inverse_distance', 'OutputWriter.aux_for_intertable_generation', 'Pyg2pApi.execute', 'GRIBReader.get_gids_for_grib_intertable'],
            bounds='one or two resolutions of 4 and 5 points, 2x3 target cells, any values', stubs=['eccodes (in-memory), nearest point search', 'gdal of the writer (symbolic runs only)'], covers=['interpolated']),
]
