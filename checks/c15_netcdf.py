"""C15: the netCDF file holds the computed values, missing cells, coordinates, valid range and times."""
import math
import netCDF4
import pyg2p.main.readers.netcdf as rnc
from engine.runner import Harness
from engine.lib import t_and, t_not, sym_int
from .run_common import *
from .map_files import *

ASSUMPTIONS = ['computed values are within the range of the storage format', 'netCDF4 in symbolic runs: a stand-in that stores dimensions, attributes and arrays as they are given; witnesses of the paths are written and read back by the real netCDF4 library',
               'interpolation is a stand-in giving any value and any kind of missing cell (masked, NaN, missing value of the target coordinates)']
HOURS = {'s': 1 / 3600, 'm': 1 / 60, 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}
NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days', 'M': 'months', 'Y': 'years', '10Y': '10Y steps', '30Y': '30Y steps', 'C': 'centuries'}
ROWS, COLS = 2, 3


class Missing:
    """what a cell of the interpolated field holds when it has no value"""
    kinds = ('nan', 'mv', 'masked')


def field(t, pattern, i, mv, lo, hi, plain):
    """(array handed over by the interpolation, cells without value, values): pattern has one letter per cell"""
    vals, miss, mask = [], [], []
    for j, c in enumerate(pattern):
        if c == 'v':
            vals.append(t.real(f'v{i}_{j}', lo, hi))
        else:
            vals.append({'n': float('nan'), 'm': mv, 'k': 12345.0}[c])
        miss.append(c != 'v')
        mask.append(c == 'k')
    a = arr(t, vals, None if plain else mask, (ROWS, COLS))
    return a, miss, vals


def store(t, fmt, scale, offset, vmin, vmax, clone_kind, target, patterns):
    kind = np.dtype(fmt).kind
    with Scratch() as d:
        home = Home(d)
        outside = t.choice('cells outside the clone', [(), (0,), (2, 4)])
        clone = make_map(d, 'clone', clone_kind, outside)
        lat, lon, lats, lons = make_target(d, target)
        n = len(patterns)
        steps = [t.int(f'step{i}', 0, 2000) for i in range(n)]
        for i in range(n - 1):
            t.assume(steps[i] < steps[i + 1])
        lo, hi = limits(fmt, scale, offset)
        msgs = [message(arr(t, [1.0, 2.0]), (6 * i, 6 * i)) for i in range(n)]
        home.gribs({'a.grb': msgs})
        g, calls, fields = Grib({'a.grb': msgs}), [], []

        def scipy(self, lats_, longs, v, grid_id, geo=None):
            i = len(fields)
            plain = 'k' not in patterns[i]
            fields.append(field(t, patterns[i], i, self.mv_output, lo, hi, plain))
            return fields[-1][0]
        extra = [(rnc, 'np', np), (interp.Interpolator, 'interpolate_scipy', scipy)]
        fake = FakeNetCDF()
        if t.symbolic:
            extra.append((wnc, 'Dataset', fake.Dataset))
        out = {'@format': 'netcdf'}
        for k, v in (('@scaleFactor', scale), ('@offset', offset), ('@validMin', vmin), ('@validMax', vmax), ('@valueFormat', fmt)):
            if v is not None:
                out[k] = v
        with Patched(*home.stubs(), *g.stubs(), *extra):
            ctx = context.ExecutionContext(home.argv(out=dict(out, **{'@cloneMap': clone}), interpolation={'@latMap': lat, '@lonMap': lon}))
            c = controller.Controller(ctx)
            c.execute()
            c.close()
        files = [f'{d}/out/{x}' for x in files_under(d + '/out') if x.endswith('.nc')] if not t.symbolic else list(fake.files)
        t.check('one netCDF file', len(files) == 1)
        f = fake.read(files[0]) if t.symbolic else read_back(files[0])
        sf, off = float(scale or 1.0), float(offset or 0.0)
        v = f['vars']['tp']
        t.cover('written')
        t.check('closed', f['closed'])
        t.check('dimensions', v['dims'] == ('time', 'lat', 'lon') and np.shape(v['data']) == (n, ROWS, COLS))
        t.check('format', v['dtype'] == np.dtype(fmt or 'f8'))
        t.check('scale and offset', float(v['attrs'].get('scale_factor', 1.0)) == sf and float(v['attrs'].get('add_offset', 0.0)) == off)
        mv = v['attrs']['missing_value']
        t.check('missing value and fill value agree', mv == v['attrs']['_FillValue'])
        t.check('longitudes', [float(x) for x in f['vars']['lon']['data']] == lons)
        t.check('latitudes', [float(x) for x in f['vars']['lat']['data']] == lats)
        for which, lim in (('valid_min', vmin), ('valid_max', vmax)):
            t.check(f'{which} if and only if asked for', (which in v['attrs']) == (lim is not None))
            if lim is not None:
                x = v['attrs'][which]
                t.check(f'{which} in packed units and type', abs(float(x) * sf + off - lim) <= (abs(sf) / 2 if kind in 'iu' else 1e-6 * (abs(lim) + abs(off))) + 1e-9 and np.dtype(fmt).type(x) == x)
        tol = abs(sf) * 0.5 + 1e-6 if kind in 'iu' else (1e-5 * (abs(lo) + abs(hi) + abs(off)) if fmt == 'f4' else 1e-6)
        for i in range(n):
            a, miss, vals = fields[i]
            for j in range(ROWS * COLS):
                x = v['data'][i][j // COLS][j % COLS]
                is_mv = equal(x, mv)
                if miss[j] or j in outside:
                    t.check('missing value where there is no value', is_mv)
                else:
                    t.check('a value where there is one', t_not(is_mv))
                    y = x * sf + off if not isinstance(x, np.generic) else float(x) * sf + off
                    t.check('reading gives the value back', t_and(y - vals[j] <= tol, vals[j] - y <= tol))


def limits(fmt, scale, offset):
    sf, off = float(scale or 1.0), float(offset or 0.0)
    dt = np.dtype(fmt or 'f8')
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        lo, hi = max(info.min + 2, -10 ** 6), min(info.max - 2, 10 ** 6)
        a, b = sorted((lo * sf + off, hi * sf + off))
        return a, b
    return -10000.0, 10000.0


def equal(x, y):
    if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
        return bool(x == y)
    e = x == y
    return bool(e) if isinstance(e, (bool, np.bool_)) else e


def times(t, source, requested):
    """the time axis"""
    with Scratch() as d:
        home = Home(d)
        clone = make_map(d, 'clone', 'map', ())
        lat, lon, lats, lons = make_target(d, 'map')
        n = t.choice('steps', [1, 2])
        ends = [t.int(f'end{i}', 0, 10 ** 5) for i in range(n)]
        for i in range(n - 1):
            t.assume(ends[i] < ends[i + 1])
        date = t.choice('date', [(20200229, 0), (19991231, 1230), (20210101, 600)])
        msgs = [message(arr(t, [1.0, 2.0]), (ends[i], ends[i]), stepUnits=source, dataDate=date[0], dataTime=date[1]) for i in range(n)]
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs})
        fake = FakeNetCDF()
        extra = [(rnc, 'np', np), (interp.Interpolator, 'interpolate_scipy', lambda self, *a: np.ones((ROWS, COLS)))]
        if t.symbolic:
            extra.append((wnc, 'Dataset', fake.Dataset))
        out = {'@format': 'netcdf', '@cloneMap': clone}
        opts = []
        if requested is not None:
            if t.flag('on the command line'):
                opts = ['-U', requested]
            else:
                out['@outputStepUnits'] = requested
        with Patched(*home.stubs(), *g.stubs(), *extra):
            ctx = context.ExecutionContext(home.argv(*opts, out=out, interpolation={'@latMap': lat, '@lonMap': lon}))
            c = controller.Controller(ctx)
            c.execute()
            c.close()
        files = [f'{d}/out/{x}' for x in files_under(d + '/out') if x.endswith('.nc')] if not t.symbolic else list(fake.files)
        f = fake.read(files[0]) if t.symbolic else read_back(files[0])
        tm = f['vars']['time']
        unit = requested if requested in NAMES and (requested == source or (requested in HOURS and source in HOURS)) else source
        day, tod = str(date[0]), f'{date[1]:04d}'
        t.cover('converted' if unit != source else 'source units')
        t.check('units since data date and time', tm['attrs']['units'] == f'{NAMES[unit]} since {day[:4]}-{day[4:6]}-{day[6:]} {tod[:2]}:{tod[2:]}:00')
        t.check('as many times as fields', np.shape(tm['data']) == (n,) and np.shape(f['vars']['tp']['data'])[0] == n)
        t.check('time dimension', tm['dims'] == ('time',))
        for x, e in zip(tm['data'], ends):
            if unit == source:
                t.check('end step', x == e)
            else:
                r = HOURS[source] / HOURS[unit]
                x = x if is_symbolic(x) else float(x)
                # storage precision: 32 bit floats
                t.check('end step in the requested unit', t_and(x - e * r <= 1e-6 * (e * r) + 1e-9, e * r - x <= 1e-6 * (e * r) + 1e-9))


def is_symbolic(x):
    from engine.core import is_sym
    return is_sym(x)


PAT = (('vvvvvv',), ('vnvmvk', 'kvvnvv'), ('nvvvvm',), ('mmnnkk', 'vvvvvv'))
STORE = []
for i, (fmt, sf, off) in enumerate(((None, None, None), ('f8', 0.7, 0.0), ('f8', 1.0, 273.15), ('f4', None, None), ('f4', 0.7, -3.0), ('i1', 0.5, 1.0), ('i2', 0.1, 5.0), ('i2', 0.7, None), ('i4', 0.001, -100.0),
                                   ('i4', None, None), ('i8', 0.3, 7.0), ('u1', 0.5, -10.0), ('u2', 0.1, 0.0), ('u4', 0.01, -1.0), ('u8', 1.0, None), ('f8', -2.0, 1.0))):
    vmin, vmax = ((None, None), (0.3, 30.0), (None, 12.7), (-1.0, None))[i % 4]
    STORE.append(dict(fmt=fmt, scale=sf, offset=off, vmin=vmin if fmt else None, vmax=vmax if fmt else None, clone_kind=('map', 'nc', 'nc-nan')[i % 3], target=('map', 'nc')[(i // 2) % 2], patterns=PAT[1 if i % 3 else i % 4]))
UNITS = [(s, r) for s in ('s', 'm', 'h', '3h', '6h', '12h', 'D', 'M') for r in (None, 's', 'm', 'h', '3h', '6h', '12h', 'D', 'M', 'Y', 'x')]
QUICK = [('h', None), ('h', 's'), ('h', 'm'), ('h', '3h'), ('h', '6h'), ('h', '12h'), ('h', 'D'), ('h', 'M'), ('h', 'x'), ('s', 'h'), ('m', 'D'), ('D', 'h'), ('M', 'Y'), ('M', 'M'), ('6h', '12h'), ('s', 's'), ('3h', None)]
HARNESSES = [
    Harness('stored values', store, STORE, ['NetCDFWriter.write/_mask_values/init_dataset/close', 'OutputWriter._write_maps_netcdf', 'Interpolator.interpolate', 'NetCDFReader', 'PCRasterReader', 'Controller.execute'],
            bounds='1 or 2 fields of 2x3 cells, any values in range, cells missing in three ways, no or some cells outside the clone, 10 formats with several scale factors and offsets, PCRaster and netCDF clone and coordinates',
            stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'netCDF4.Dataset for output (symbolic runs only)'], covers=['written'], builtins={'int': sym_int},
            thorough_params=[dict(p, clone_kind=k, target=g, patterns=q) for p in STORE for k in ('map', 'nc', 'nc-nan') for g in ('map', 'nc') for q in PAT]),
    Harness('times', times, [dict(source=s, requested=r) for s, r in QUICK], ['NetCDFWriter.write', 'OutputWriter._write_maps_netcdf', 'ExecutionContext (-U, @outputStepUnits)'],
            bounds='1 or 2 steps up to 10^5 of any value, 17 pairs of units (all 88 in the thorough tier)', stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'netCDF4.Dataset for output (symbolic runs only)'],
            covers=['converted', 'source units'], exact_strings='tokens', builtins={'int': sym_int}, thorough_params=[dict(source=s, requested=r) for s, r in UNITS]),
]
