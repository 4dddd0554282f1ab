"""C20: the altitude correction applies its formula exactly where all inputs are valid, with the data of the current settings."""
import pyg2p.main.interpolation.latlong as latlong
import pyg2p.main.manipulation.correction as corr
import pyg2p.main.readers.netcdf as rnc
import pyg2p.main.readers.pcr as rpcr
from engine.runner import Harness
from engine.lib import t_and, t_not
from .run_common import *
from .map_files import *
from .c16_maps import FakeGdal, api_conf, read_maps, is_sym_

ASSUMPTIONS = ['interpolation is a stand-in giving each target cell the value of one source cell, or a missing cell in one of three ways (masked, NaN, missing value of the target coordinates)',
               'GDAL and netCDF4 for output are stand-ins in symbolic runs; witnesses of the paths use the real libraries', 'geopotential values that equal the missing value of their message are missing']
FORMULAS = [('p+gem-dem*0.0065', '(z/9.81)*0.0065', lambda p, g, d: p + g - d * 0.0065, lambda z: z / 9.81 * 0.0065), ('p*2-gem+dem*3', 'z+1', lambda p, g, d: p * 2 - g + d * 3, lambda z: z + 1),
            ('gem*0.5+dem-p', 'z*3', lambda p, g, d: g * 0.5 + d - p, lambda z: z * 3), ('p-dem+100-gem*0.1', 'z', lambda p, g, d: p - d + 100 - g * 0.1, lambda z: z)]


def reset(t):
    """class level caches of the code are empty at the start of a path"""
    out = []
    for c in (corr.Corrector, interp.Interpolator):
        for k, v in list(vars(c).items()):
            if isinstance(v, dict) and not k.startswith('__') and k not in ('suffixes', 'scipy_modes_nnear'):
                out.append((c, k, {}))
    if t.symbolic and isinstance(vars(corr).get('default_fillvals'), dict):
        # arrays of symbolic values have dtype object
        out.append((corr, 'default_fillvals', dict(corr.default_fillvals, O=corr.default_fillvals['f8'])))
    return out


def regrid(kind, mv=9999.0):
    """stand-in for the interpolation methods: cell j of the target has the value of source cell j"""
    def go(self, v):
        d, m = np.array(ma.getdata(v)).reshape(-1), ma.getmaskarray(v).reshape(-1)
        miss = [bool(m[j]) or (not is_sym_(d[j]) and float(d[j]) in (mv,)) for j in range(6)]
        out = [{'n': float('nan'), 'm': self.mv_output, 'k': 77.0}[kind] if miss[j] else d[j] for j in range(6)]
        a = np.empty(6, dtype=object if any(is_sym_(x) for x in out) else float)
        a[:] = out
        if a.dtype == object:
            from engine.nplike import ObjArr
            a = a.view(ObjArr)
        a = a.reshape(2, 3)
        return ma.masked_array(a, mask=np.array(miss).reshape(2, 3)) if kind == 'k' else a
    return [(interp.Interpolator, 'interpolate_scipy', lambda self, lats, longs, v, grid_id, geo=None: go(self, v)),
            (interp.Interpolator, 'interpolate_grib', lambda self, v, gid, grid_id, is_second_res=False: go(self, v)),
            (interp.Interpolator, 'aux_for_intertable_generation', lambda self, *a: None)]


def gridded(t, name, pattern, step=(0, 0), lo=-1000, hi=1000, **kw):
    """a message of six values: v value, k masked by the bitmap, q the missing value without bitmap"""
    vals = [t.real(f'{name}_{j}', lo, hi) if c == 'v' else 9999.0 for j, c in enumerate(pattern)]
    m = message(arr(t, vals), step, Ni=3, Nj=kw.pop('Nj', 2), **kw)
    if 'k' in pattern:
        m.update(bitmapPresent=1, bitmap=np.array([int(c != 'k') for c in pattern]))
    m['_vals'], m['_ok'] = vals, [c == 'v' for c in pattern]
    return m


def dem_map(t, d, name, kind, missing, conc):
    """elevation map; symbolic elevations where conc is None"""
    vals = conc or [t.real(f'{name}_{j}', -100, 4000) for j in range(6)]
    sym = any(is_sym_(x) for x in vals)
    f = make_map(d, name, kind, missing, [100.0 + j for j in range(6)] if sym else [float(x) for x in vals])
    patches = []
    if sym:
        mod, cls = (rpcr, rpcr.PCRasterReader) if kind == 'map' else (rnc, rnc.NetCDFReader)
        real = cls.__dict__['values']

        def values(self):
            a = real.__get__(self)
            if not getattr(self, '_verif_dem', False):
                return a
            out = np.array(a, dtype=object)
            for j in range(6):
                if j not in missing:
                    out[j // 3][j % 3] = vals[j]
            from engine.nplike import ObjArr
            return out.view(ObjArr)
        init = cls.__init__

        def __init__(self, path, *a, **k):
            self._verif_dem = os.path.basename(str(path)) == f
            init(self, path, *a, **k)
        patches = [(cls, 'values', property(values)), (cls, '__init__', __init__)]
    return f, vals, patches


def agree(t, got, mv, cells_, tol):
    """cells_: (valid, expected) per cell; got: values as stored"""
    for j, (ok, x) in enumerate(cells_):
        y = got[j // 3][j % 3]
        y = y if is_sym_(y) else float(y)
        if ok:
            t.check('formula where all inputs are valid', t_and(y - x <= tol, x - y <= tol))
        else:
            t.check('missing where an input is missing', (y == mv or (y != y and mv != mv)) if not is_sym_(y) else False)


def outputs(t, d, fake, fakenc, fmt, through, result=None):
    """the arrays and missing values of a run"""
    if through == 'api':
        return [(v, result[1]) for v in result[0].values()]
    if fmt == 'pcraster':
        return [(a, mv) for _, a, mv in (fake.maps if t.symbolic else read_maps(d + '/out'))]
    path = f'{d}/out/' + [x for x in files_under(d + '/out') if x.endswith('.nc')][0] if not t.symbolic else list(fakenc.files)[0]
    v = (fakenc.read(path) if t.symbolic else read_back(path))['vars']['tp']
    sf, off, mv = float(v['attrs'].get('scale_factor', 1.0)), float(v['attrs'].get('add_offset', 0.0)), float(v['attrs']['missing_value'])
    out = []
    for rows in v['data']:
        a = np.empty((2, 3), dtype=object)
        for j in range(6):
            x = rows[j // 3][j % 3]
            missing = not is_sym_(x) and float(x) == mv
            a[j // 3, j % 3] = mv if missing else (x if is_sym_(x) else float(x)) * sf + off
        out.append((a, mv))
    return out


def run(t, d, home, through, fmt, mode, extra_out, formula, dem, more=(), opts=(), lat='lat.map', lon='lon.map', input_='a.grb', outdir=None):
    f = formula
    if through == 'api':
        conf = api_conf(d, {}, 'clone.map', lat, lon, mode, inputFile=f'{d}/{input_}')
        conf['Parameter'].update(correctionFormula=f[0], gem=f[1], demMap=f'{d}/{dem}')
        p = api.Pyg2pApi(api.ApiContext(conf))
        return p.execute(), p.mv
    argv = home.argv(*opts, param={'@correctionFormula': f[0], '@gem': f[1], '@demMap': dem}, out=dict({'@format': fmt}, **extra_out), interpolation={'@latMap': lat, '@lonMap': lon, '@mode': mode})
    argv[argv.index('-i') + 1] = f'{d}/{input_}'
    c = controller.Controller(context.ExecutionContext(argv))
    c.execute()
    c.close()


def correct(t, through, fmt, mode, kind, dem_kind, pattern, formula, source, packed):
    with Scratch() as d:
        home = Home(d)
        outside = t.choice('cells outside the clone', [(), (4,)])
        make_map(d, 'clone', 'map', outside)
        make_target(d, 'map')
        ppat, zpat, dmiss = pattern
        dem, dvals, dpatch = dem_map(t, d, 'dem', dem_kind, dmiss, None if formula in (0, 3) else [120.0, 0.0, -3.0, 2500.0, 10.0, 1.0])
        f = FORMULAS[formula]
        p = [gridded(t, f'p{i}', ppat if i == 0 else 'vvvvvv', (6 * i, 6 * i)) for i in range(2)]
        name, place, indexable = t.choice('name and place of the geopotential, indexed file or not', [('z', 2, True), ('fis', 0, False), ('orog', 1, False), ('FIS', 2, False)])
        z = gridded(t, 'z', zpat, shortName=name)
        files = {'a.grb': p[:place] + [z] + p[place:] if source == 'input' else p}
        if source != 'input':
            os.makedirs(d + '/user', exist_ok=True)
            files['user/geo.grb'] = [z]
        home.gribs(files)
        g = Grib({os.path.basename(k): v for k, v in files.items()}, indexable)
        fake, fakenc = FakeGdal(), FakeNetCDF()
        extra = reset(t) + regrid(kind) + dpatch + [(rnc, 'np', np)]
        if t.symbolic:
            extra += [(wpcr, 'gdal', fake), (wnc, 'Dataset', fakenc.Dataset)]
        with Patched(*home.stubs(), *g.stubs(), *extra):
            gid = g.new(p[0])
            home.glob['geopotentials.json'] = {pyg2p.GribGridDetails(gid).grid_id: 'geo.grb'} if source != 'input' else {}
            g.release(gid)
            res = run(t, d, home, through, fmt, mode, {'@valueFormat': 'i4', '@scaleFactor': '0.01', '@offset': '5'} if packed else {}, f, dem)
        t.cover('corrected')
        t.check('messages released and files closed', not g.live and not g.open_indexes and not g.problems)
        out = outputs(t, d, fake, fakenc, fmt, through, res)
        t.check('one array per field', len(out) == 2)
        tol = 0.02 if packed else 1e-2 if fmt == 'pcraster' or dem_kind == 'map' else 1e-6
        for i, (a, mv) in enumerate(out):
            exp = []
            for j in range(6):
                ok = p[i]['_ok'][j] and z['_ok'][j] and j not in dmiss and j not in outside
                exp.append((ok, f[2](p[i]['_vals'][j], f[3](z['_vals'][j]), dvals[j]) if ok else None))
            agree(t, a, mv, exp, tol)


CHANGES = ('formula', 'gem', 'dem', 'geopotential', 'target', 'nothing', 'grid')


def history(t, change, through, order):
    """Two corrections in one process, with other settings"""
    with Scratch() as d:
        home = Home(d)
        make_map(d, 'clone', 'map', ())
        make_target(d, 'map')
        for n in ('lat2.map', 'lon2.map'):
            with open(d + '/' + n[:3] + '.map', 'rb') as f, open(d + '/' + n, 'wb') as o:
                o.write(f.read())
        dems = [[120.0, 0.0, -3.0, 2500.0, 10.0, 1.0], [1.0, 2.0, 3.0, 4.0, 5.0, 600.0]]
        names = [make_map(d, f'dem{i}', 'map', (), dems[i]) for i in range(2)]
        zs = [gridded(t, f'z{i}', 'vvvvvv', shortName='z', Nj=2 if i == 0 or change != 'grid' else 3) for i in range(2)]
        ps = [gridded(t, f'p{i}', 'vvvvvv', Nj=2 if i == 0 or change != 'grid' else 3) for i in range(2)]
        home.gribs({'a.grb': [ps[0], zs[0]], 'b.grb': [ps[1], zs[1]]} if change == 'geopotential' and order else {'a.grb': ps[:1], 'b.grb': ps[1:]})
        src = {'a.grb': [ps[0], zs[0]], 'b.grb': [ps[1], zs[1]]} if change == 'geopotential' and order else {'a.grb': ps[:1], 'b.grb': ps[1:], 'geo.grb': zs[:1], 'geo2.grb': zs[1:]}
        os.makedirs(d + '/user', exist_ok=True)
        for n, z in (('geo.grb', zs[0]), ('geo2.grb', zs[1])):
            with open(d + '/user/' + n, 'wb') as f:
                f.write(bytes([0]))
        g, extra, fake = Grib(src), reset(t) + regrid('k'), FakeGdal()
        # the stand-in of the interpolation tells target maps apart by an offset of the values
        shift = lambda self: 1000.0 if self._ctx_lat.endswith('lat2.map') else 0.0
        init = interp.Interpolator.__init__

        def new_init(self, ctx, *a, **k):
            init(self, ctx, *a, **k)
            self._ctx_lat = ctx.get('interpolation.latMap')
        (c1, n1, go), (c2, n2, go2), aux = regrid('k')
        shifted = [(interp.Interpolator, '__init__', new_init), (c1, n1, lambda self, *a, **k: go(self, *a, **k) + shift(self)), (c2, n2, lambda self, *a, **k: go2(self, *a, **k) + shift(self))]
        if t.symbolic:
            extra.append((wpcr, 'gdal', fake))
        # (formula of the cell, formula of the geopotential) of both runs
        fs = [FORMULAS[0], FORMULAS[0]]
        if change == 'formula':
            fs[1] = ('p-gem-dem', FORMULAS[0][1], lambda p, g, d: p - g - d, FORMULAS[0][3])
        if change == 'gem':
            fs[1] = (FORMULAS[0][0], 'z*5', FORMULAS[0][2], lambda z: z * 5)
        if order == 'swapped':
            fs.reverse()
        seq = [0, 1] if order != 'swapped' else [1, 0]
        k = len(seq)
        with Patched(*home.stubs(), *g.stubs(), *extra, *shifted):
            ids = []
            for p in ps:
                gid = g.new(p)
                ids.append(pyg2p.GribGridDetails(gid).grid_id)
                g.release(gid)
            results, expected = [], []
            for n, i in enumerate(seq):
                dem = 1 if change == 'dem' and i else 0
                target = 2 if change == 'target' and i else ''
                zi = 1 if change in ('geopotential', 'grid') and i else 0
                home.glob['geopotentials.json'] = {} if change == 'geopotential' and order else {ids[0]: 'geo2.grb' if change == 'geopotential' and i else 'geo.grb'}
                if change == 'grid':
                    home.glob['geopotentials.json'][ids[1]] = 'geo2.grb'
                f = fs[n] if order == 'swapped' else fs[i]
                res = run(t, d, home, through, 'pcraster', 'nearest', {}, f, names[dem], lat=f'lat{target}.map', lon=f'lon{target}.map', input_='b.grb' if i else 'a.grb', opts=())
                if through == 'command':
                    out = outputs(t, d, fake, None, 'pcraster', 'command')[-1:]
                    if not t.symbolic:
                        import shutil
                        shutil.rmtree(d + '/out')
                else:
                    out = outputs(t, d, None, None, None, 'api', res)
                off = 1000.0 if target else 0.0
                exp = [(True, f[2](ps[i]['_vals'][j] + off, f[3](zs[zi]['_vals'][j]) + off, dems[dem][j])) for j in range(6)]
                t.check('one array', len(out) == 1)
                agree(t, out[0][0], out[0][1], exp, 1e-2)
        t.cover('both corrected')


def two_resolutions(t, through, source):
    """Each resolution is corrected with the geopotential of its own grid"""
    with Scratch() as d:
        home = Home(d)
        make_map(d, 'clone', 'map', ())
        make_target(d, 'map')
        dem = make_map(d, 'dem', 'map', (), [120.0, 0.0, -3.0, 2500.0, 10.0, 1.0])
        dvals = [120.0, 0.0, -3.0, 2500.0, 10.0, 1.0]
        ps = [gridded(t, f'p{i}', 'vvvvvv', (6 * i, 6 * i), Nj=2 + i) for i in range(2)]
        zs = [gridded(t, f'z{i}', 'vvkvvv' if i else 'vvvvvv', shortName='z', Nj=2 + i) for i in range(2)]
        os.makedirs(d + '/user', exist_ok=True)
        for n in ('geo.grb', 'geo2.grb'):
            with open(d + '/user/' + n, 'wb') as f:
                f.write(bytes([0]))
        src = {'a.grb': ps + (zs[::-1] if t.flag('second first') else zs) if source == 'input' else ps}
        home.gribs(src)
        src.update({'geo.grb': zs[:1], 'geo2.grb': zs[1:]})
        g, fake = Grib(src), FakeGdal()
        extra = reset(t) + regrid('k') + ([(wpcr, 'gdal', fake)] if t.symbolic else [])
        with Patched(*home.stubs(), *g.stubs(), *extra):
            ids = []
            for p in ps:
                gid = g.new(p)
                ids.append(pyg2p.GribGridDetails(gid).grid_id)
                g.release(gid)
            home.glob['geopotentials.json'] = {ids[0]: 'geo.grb', ids[1]: 'geo2.grb'} if source != 'input' else {}
            res = run(t, d, home, through, 'pcraster', 'nearest', {}, FORMULAS[0], dem)
        t.cover('corrected')
        out = outputs(t, d, fake, None, 'pcraster', through, res)
        t.check('two arrays', len(out) == 2)
        f = FORMULAS[0]
        for i, (a, mv) in enumerate(out):
            ok = zs[i]['_ok']
            agree(t, a, mv, [(ok[j], f[2](ps[i]['_vals'][j], f[3](zs[i]['_vals'][j]), dvals[j]) if ok[j] else None) for j in range(6)], 1e-2)


PATTERNS = [('vvvvvv', 'vvvvvv', ()), ('vkvvvv', 'vvkvvv', (3, 5)), ('kkvvvv', 'vkkvvv', (0,)), ('vvvvvv', 'vvqvvv', (1,)), ('vvqvvv', 'vvvvkk', ())]
CASES = []
for i, pat in enumerate(PATTERNS):
    for j, (through, fmt, packed) in enumerate((('command', 'pcraster', False), ('command', 'netcdf', False), ('command', 'netcdf', True), ('api', 'pcraster', False))):
        CASES.append(dict(through=through, fmt=fmt, packed=packed, mode=('nearest', 'grib_nearest')[(i + j) % 2], kind='nmk'[(i + j) % 3], dem_kind=('map', 'nc', 'nc-nan')[(i + 2 * j) % 3], pattern=pat, formula=(i + j) % 4, source=('input', 'registered')[(i + j // 2) % 2]))
HARNESSES = [
    Harness('formula', correct, CASES, ['Corrector.get_instance/__init__/correct/_read_geo/_read_dem', 'Interpolator.interpolate', 'OutputWriter', 'Pyg2pApi.execute', 'GRIBReader.has_geopotential', 'Context.geo_file'],
            bounds='2 fields of 6 cells, any values, elevations and geopotentials; missing cells in each of the three; geopotential before, between or after the messages, in files with and without index; 4 pairs of formulas; PCRaster and netCDF elevation maps; all outputs', stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy/interpolate_grib', 'gdal and netCDF4 for output, values of the elevation map (symbolic runs only)'],
            covers=['corrected'], thorough_params=[dict(c, kind=k, dem_kind=m, mode=o, source=s) for c in CASES for k in 'nmk' for m in ('map', 'nc', 'nc-nan') for o in ('nearest', 'grib_nearest') for s in ('input', 'registered')]),
    Harness('history', history, [dict(change=c, through=h, order=o) for c in CHANGES for h in ('command', 'api') for o in ('', 'swapped')], ['Corrector.get_instance', 'Corrector.__init__'],
            bounds='two corrections in one process which differ in formula, geopotential formula, elevation map, geopotential file, target maps or grid', stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'gdal for output (symbolic runs only)'], covers=['both corrected']),
    Harness('two resolutions', two_resolutions, [dict(through=h, source=s) for h in ('command', 'api') for s in ('input', 'registered')], ['Corrector._read_geo', 'OutputWriter._write_maps_pcraster', 'Pyg2pApi.execute'],
            bounds='one field at each of two resolutions, geopotentials in the input file or registered', stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'gdal for output (symbolic runs only)'], covers=['corrected']),
]
