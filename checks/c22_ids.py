"""C22: grid ids tell grids apart, and a lookup table is only used for the grids and settings it was made for."""
from fractions import Fraction
import pyg2p.main.interpolation.latlong as latlong
import pyg2p.main.readers.netcdf as rnc
import pyg2p.main.readers.pcr as rpcr
from engine.core import is_sym
from engine.lib import t_and, t_not, t_or, sym_int
from engine.runner import Harness
from engine.text import SymText, rounded, same_text, text, with_texts
from .run_common import *
from .interp_common import Target, World, grid, interpolator, real_conf, sil, GEO
from .c06_weights import around, CUSTOM
from .c08_tables import same_cells

ASSUMPTIONS = ['longitudes are in -360..360, and not between -0.00005 and 0 (rounded to minus zero)', 'grid types are made of the characters space to ~, without $', 'two grids differ in at most two adjacent parts of the id']
KEYS = {'first': 'longitudeOfFirstGridPointInDegrees', 'last': 'longitudeOfLastGridPointInDegrees', 'ni': 'Ni', 'nj': 'Nj', 'n': 'numberOfValues', 'type': 'gridType'}
FIXED = {'first': 0.0, 'last': 359.5, 'ni': 720, 'nj': 361, 'n': 259920, 'type': 'regular_ll'}


def both(a, b):
    return t_or(t_and(a, b), t_and(t_not(a), t_not(b)))


def same(part, a, b):
    """condition: the values are the same for the id"""
    if part in ('first', 'last'):
        return rounded(a, 4) == rounded(b, 4)
    if part == 'type':
        return same_text(a, b)
    return a == b


RANGES = {'west': (-360, -10), 'middle': (-10, 10), 'east': (10, 360)}


def value(t, part, i, small, at=None):
    if part in ('first', 'last'):
        if small:
            return t.int(f'{part}{i}', 0, 360) * 1.0    # whole degrees
        x = t.real(f'{part}{i}', *RANGES[at])
        t.assume(t_or(x >= 0, x < -Fraction(1, 20000)) if t.symbolic else x >= 0 or x < -0.00005)
        return x
    if part == 'type':
        s = text(t, f'{part}{i}', t.choice(f'length of {part}{i}', [1, 2]), lo=33)
        if t.symbolic:
            t.assume(t_and(*[t_not(same_text(c, '$')) for c in s]))
        else:
            t.assume('$' not in s)
        return s
    return t.int(f'{part}{i}', 0, 999 if small else 99999)


def grids(t, parts, where=(None, None)):
    small = len(parts) > 1
    msgs, states = [], []
    for i in range(2):
        m = message(np.zeros(2), (0, 0), radius=6371229.0 + 1000 * i, missingValue=9999.0 - i, dataDate=20200101 + i, latitudeOfFirstGridPointInDegrees=10.0 * i)
        if i:
            m.update(latitudeOfSouthernPoleInDegrees=-30.0, longitudeOfSouthernPoleInDegrees=15.0, angleOfRotationInDegrees=0.0)
        st = {}
        for p, k in KEYS.items():
            m[k] = value(t, p, i, small, where[i]) if p in parts else FIXED[p]
            st[p] = 'given'
            if p in parts and p in ('ni', 'nj', 'last'):
                st[p] = t.choice(f'{p}{i} is', ['given', 'missing', 'not defined'])
                if st[p] == 'missing':
                    m['_missing'] = m.get('_missing', ()) + (k,)
        hidden = [KEYS[p] for p in KEYS if st[p] == 'not defined']
        for k in hidden:
            m['_missing'] = m.get('_missing', ()) + (k,)
            m.pop(k)
        msgs.append(m)
        states.append(st)
    g = Grib({})

    def is_missing(gid, k):
        m = g.msg(gid)
        if k not in m:
            raise eccodes.KeyValueNotFoundError(k)
        return int(k in m.get('_missing', ()))
    with Patched(*g.stubs(), (eccodes, 'codes_is_missing', is_missing)):
        cls = with_texts(pyg2p)['GribGridDetails'] if t.symbolic else pyg2p.GribGridDetails
        ids = [cls(g.new(m)).grid_id for m in msgs]
        again = cls(g.new(dict(msgs[0]))).grid_id
    conds = []
    for p in parts:
        miss = [st[p] != 'given' for st in states]
        if miss[0] != miss[1]:
            conds.append(False)
        elif not miss[0]:
            conds.append(same(p, msgs[0][KEYS[p]], msgs[1][KEYS[p]]))
    eq = same_text(ids[0], ids[1])
    t.cover('compared')
    t.check('the same message gives the same id', same_text(ids[0], again))
    t.check('same grid, same id; other grid, other id', both(eq, t_and(*conds)))
    tab = [same_text(a, b) for a, b in [(SymText(x).replace('$', '_') if t.symbolic else x.replace('$', '_') for x in ids)]][0]
    if 'type' not in parts:
        t.check('also when $ is replaced', both(tab, eq))


TKEYS = {'x': 0, 'width': 1, 'y': 3, 'height': 5}


def targets(t, which, parts):
    """Identifier of target maps"""
    if which != 'map':
        return netcdf_targets(t, parts)
    maps = []
    for i in range(2):
        tr, ext = [2500.0, 5000.0, 0.0, 5500.0, 0.0, -5000.0], {'lat': [40.25, 60.5], 'lon': [-10.125, 30.75]}
        for p in parts:
            if p in TKEYS:
                x = t.real(f'{p}{i}', -99, 99)
                tr[TKEYS[p]] = x
            else:
                k, j = p.split()
                ext[k][('min', 'max').index(j)] = t.real(f'{p}{i}', -90, 90)
        maps.append((tr, ext))

    class Band:
        def __init__(self, e):
            self.e = e

        def GetMinimum(self):
            return self.e[0]

        def GetMaximum(self):
            return self.e[1]

        def GetNoDataValue(self):
            return -9999.0

        def ReadAsArray(self, *a):
            return np.zeros((2, 3))

    class Gdal:
        @staticmethod
        def GetDriverByName(n):
            class D:
                def Register(self):
                    pass
            return D()

        @staticmethod
        def Open(path, mode=0):
            i, k = int(path[:1]), path[1:4].decode()
            tr, ext = maps[i]

            class Dataset:
                RasterXSize, RasterYSize = 3, 2

                def GetGeoTransform(self):
                    return tuple(tr)

                def GetRasterBand(self, n):
                    return Band(ext[k])
            return Dataset()
    with Patched((rpcr, 'gdal', Gdal)):
        ids = [latlong.LatLong(f'{i}lat.map', f'{i}lon.map').identifier for i in range(2)]
    conds = []
    for p in parts:
        a, b = [m[0][TKEYS[p]] if p in TKEYS else m[1][p.split()[0]][('min', 'max').index(p.split()[1])] for m in maps]
        if p in TKEYS:
            conds.append((a.__trunc__() if is_sym(a) else int(a)) == (b.__trunc__() if is_sym(b) else int(b)))
        else:
            conds.append(rounded(a, 2) == rounded(b, 2))
    eq = same_text(ids[0], ids[1])
    t.cover('compared')
    t.check('other target grid, other identifier', t_or(t_not(eq), t_and(*conds)))


NC_RANGES = {'lat min': (-90, 50), 'lat max': (51, 90), 'lon min': (-180, 2), 'lon max': (4, 360)}


def netcdf_targets(t, parts):
    maps = []
    for i in range(2):
        m = {'lat': [60.5, 50.125, 40.25], 'lon': [-10.125, 3.0, 30.75]}
        for p in parts:
            k, j = p.split()
            lo, hi = NC_RANGES[p]
            m[k][(0 if j == 'max' else 2) if k == 'lat' else (0 if j == 'min' else 2)] = t.real(f'{p}{i}', lo, hi)
        maps.append(m)

    class Var:
        def __init__(self, m, n):
            self.dimensions = ('lat', 'lon') if n == 'area' else (n,)
            self.a = ma.masked_array(np.zeros((3, 3)) if n == 'area' else arr(t, m[n]), mask=False)
            self.shape, self.dtype = self.a.shape, np.dtype('f8')

        def __getitem__(self, k):
            return self.a[k]

    class Dataset:
        def __init__(self, path, *a, **k):
            m = maps[int(path[:1])]
            self.variables = {n: Var(m, n) for n in ('lat', 'lon', 'area')}

        def close(self):
            pass
    with Patched((rnc, 'Dataset', Dataset), (rnc, 'np', np), (latlong, 'default_fillvals', dict(latlong.default_fillvals, O=latlong.default_fillvals['f8']))):
        ids = [latlong.LatLong(f'{i}.nc', f'{i}.nc').identifier for i in range(2)]
    t.cover('compared')
    at = {'lat min': ('lat', 2), 'lat max': ('lat', 0), 'lon min': ('lon', 0), 'lon max': ('lon', 2)}
    conds = [rounded(maps[0][at[p][0]][at[p][1]], 2) == rounded(maps[1][at[p][0]][at[p][1]], 2) for p in parts]
    t.check('other target grid, other identifier', t_or(t_not(same_text(ids[0], ids[1])), t_and(*conds)))


def tables(t, what):
    """A table of one run is used by another one only for the same grids and settings"""
    base = dict(mode='cdd' if what == 'cdd' else 'nearest', shape=(1, 2), grid='0$3$4$1$4$regular_ll', ident='7_50', map='cdd.nc', cmode='MixHofstraShepard', options=None)
    runs = []
    for i in range(2):
        r = dict(base)
        if what == 'cdd':
            r['map'] = t.choice(f'cdd map {i}', ['cdd.nc', 'other.nc'])
            r['cmode'] = t.choice(f'cdd mode {i}', ['MixHofstraShepard', 'Hofstra'])
            if r['cmode'] == 'MixHofstraShepard':
                r['options'] = t.choice(f'cdd options {i}', [None, 0]) is not None and dict(CUSTOM) or None
        else:
            r['shape'] = t.choice(f'shape {i}', [(1, 2), (2, 1), (2, 2)])
            r['grid'] = t.choice(f'grid {i}', ['0$3$4$1$4$regular_ll', '0$3$4$14$$regular_ll'])
            r['ident'] = t.choice(f'target {i}', ['7_50', '7_5_0'])
            r['mode'] = t.choice(f'mode {i}', ['nearest', 'grib_nearest'])
        runs.append(r)
    n = 12 if what == 'cdd' else 6
    v = arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(n)])
    cdds = {'cdd.nc': [900.0, 50.0], 'other.nc': [300.0, 700.0]}

    count = [0]

    def one(d, i, create):
        count[0] += 1
        r = runs[i]
        shift = {'0$3$4$1$4$regular_ll': 0}.get(r['grid'], 2) + (1 if r['ident'] == '7_5_0' else 0)
        tgt = grid(*r['shape'])
        order = {p: j for j, p in enumerate((a, b) for ra, rb in zip(*tgt) for a, b in zip(ra, rb))}
        find = lambda gid, lat, lon, is_lsm=False, npoints=1: [dict(distance=1.0, index=(order[lat, lon] + shift + 1) % 6, lat=0, lon=0, value=0)]
        opts = {'interpolation.create': create}
        if r['mode'] == 'cdd':
            pts = around()
            w = World(t, n, 11, free=(), name=f'w{count[0]}', groups='aaabbbbbccc', orders=[list(range(11))])
            opts.update({'interpolation.cdd_map': r['map'], 'interpolation.cdd_mode': r['cmode'], 'interpolation.cdd_options': r['options']})
        else:
            pts = [(51.0 - 0.4 * i, 8.0 + 0.7 * ((i * 3) % 6)) for i in range(6)]
            w = World(t, n, 1, free=(), name=f'w{count[0]}', orders=[[(j + shift) % 6] for j in range(4)])
        w.res = 1e5
        values = arr(t, cdds[r['map']], shape=(1, 2))

        class R:
            def __init__(self, *a, **k):
                self.values, self.mv = values, -9999.0

            def close(self):
                pass
        interp.Interpolator._LOADED_INTERTABLES.clear()
        with Patched((eccodes, 'codes_grib_find_nearest', find), (sil, 'KDTree', w.tree()), (sil, 'PCRasterReader', R), (sil, 'NetCDFReader', R)):
            it = interpolator(d, r['mode'], Target(*tgt, ident=r['ident']), real_conf(d), **opts)
            it.aux_for_intertable_generation(7, v, None, None)
            return it.interpolate(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), v, r['grid'], GEO, gid=7)
    exp = []
    for i in range(2):
        with Scratch() as d:
            exp.append(one(d, i, True))
    equal = runs[0] == runs[1]
    with Scratch() as d:
        same_cells(t, 'first run', exp[0], one(d, 0, True))
        try:
            out = one(d, 1, False)
            t.check('no table made for something else is used', equal)
            t.cover('same')
            same_cells(t, 'same settings', exp[1], out)
        except ApplicationException as e:
            t.check('the table is used for the same grids and settings', not equal and e.code == interp.NO_INTERTABLE_CREATED)
            t.cover('other')
        same_cells(t, 'second run', exp[1], one(d, 1, True))
        same_cells(t, 'first settings again', exp[0], one(d, 0, False))
        same_cells(t, 'second settings again', exp[1], one(d, 1, False))


METHODS = ['nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']


def methods(t, first):
    """A table of one method is not used by another one"""
    modes = [first, t.choice('method of the second run', METHODS)]
    slats, slons = grid(5, 5, lat0=51.0, lon0=9.0, step=0.5)
    pts = [(a, b) for ra, rb in zip(slats, slons) for a, b in zip(ra, rb)]
    tgt = [[50.2, 50.3], [49.7, 49.65]], [[10.2, 10.4], [10.15, 10.45]]
    v = arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(25)])

    class R:
        def __init__(self, *a, **k):
            self.values, self.mv = np.full((2, 2), 300.0), -9999.0

        def close(self):
            pass
    find = lambda gid, lat, lon, is_lsm=False, npoints=1: [dict(distance=9.0 + k, index=(int(lat * 100 + lon) + k) % 25, lat=0, lon=0, value=0) for k in range(npoints)]

    def one(d, mode, create):
        opts = {'interpolation.create': create}
        if mode == 'cdd':
            opts.update({'interpolation.cdd_map': 'cdd.nc', 'interpolation.cdd_mode': 'Hofstra'})
        interp.Interpolator._LOADED_INTERTABLES.clear()
        with Patched((eccodes, 'codes_grib_find_nearest', find), (sil, 'PCRasterReader', R), (sil, 'NetCDFReader', R)):
            it = interpolator(d, mode, Target(*tgt, ident='7_50', mv=float('nan')), real_conf(d), **opts)
            it.aux_for_intertable_generation(7, v, None, None)
            return it.interpolate(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), v, '0$3$5$5$25$regular_ll', GEO, gid=7)
    with Scratch() as d:
        exp = one(d, modes[0], True)
        try:
            out = one(d, modes[1], False)
            t.check('no table of another method is used', modes[0] == modes[1])
            t.cover('same')
            same_cells(t, 'same method', exp, out)
        except ApplicationException as e:
            t.check('the table is used for the same method', modes[0] != modes[1] and e.code == interp.NO_INTERTABLE_CREATED)
            t.cover('other')


PAIRS = [('first',), ('last',), ('ni',), ('nj',), ('n',), ('type',), ('first', 'last'), ('last', 'ni'), ('ni', 'nj'), ('nj', 'n'), ('n', 'type')]
PLACES = [('west', 'middle'), ('west', 'west'), ('middle', 'middle'), ('middle', 'east'), ('east', 'east')]
TPARTS = [('x',), ('y',), ('width',), ('height',), ('lat min',), ('lat max',), ('lon min',), ('lon max',)]

TARGETS = [dict(which='map', parts=p) for p in TPARTS]


def grid_params(n):
    return [dict(parts=p, where=w) for p in PAIRS for w in ((PLACES if p == ('first',) else PLACES[:n]) if p in (('first',), ('last',)) else [(None, None)])]


HARNESSES = [
    Harness('grids', grids, grid_params(2), thorough_params=grid_params(5), functions= ['GribGridDetails.__init__', 'GribGridDetails._build_id'], exact_strings='text',
            bounds='all values of one part of the id (longitudes -360..360, numbers to 99999) or of two adjacent parts (longitudes 0..360 in whole degrees, numbers to 999, grid types of 1-2 characters); keys given, missing or undefined',
            stubs=['eccodes'], covers=['compared']),
    Harness('targets', targets, TARGETS + [dict(which='nc', parts=p) for p in TPARTS[4:]], ['PCRasterReader.identifier', 'NetCDFReader.identifier', 'LatLong'], exact_strings='text', builtins={'int': sym_int},
            thorough_params=TARGETS + [dict(which='nc', parts=(p,)) for p in NC_RANGES] + [dict(which='nc', parts=p) for p in (('lat min', 'lat max'), ('lon min', 'lon max'), ('lat max', 'lon min'))],
            bounds='any value of one of origin, pixel size (-99..99), smallest and largest latitude and longitude (-90..90)', stubs=['gdal', 'netCDF4.Dataset'], covers=['compared']),
    Harness('tables', tables, [dict(what=w) for w in ('grids', 'cdd')], ['Interpolator._intertable_filename', 'Interpolator.update_intertable_conf', 'IntertablesConfiguration'],
            bounds='two runs with up to 3 target shapes, 2 grid ids, 2 target identifiers, 2 methods, 2 cdd maps, 2 cdd modes, 2 option sets; any values', stubs=['KDTree', 'eccodes.codes_grib_find_nearest', 'reader of the cdd map'],
            covers=['same', 'other'], tol=1e-11),
    Harness('methods', methods, [dict(first=m) for m in METHODS], ['Interpolator.__init__', 'Interpolator._intertable_filename'], bounds='every pair of methods, 25 sources with any values, 4 target cells',
            stubs=['eccodes.codes_grib_find_nearest', 'reader of the cdd map'], covers=['same', 'other'], tol=1e-9)]
