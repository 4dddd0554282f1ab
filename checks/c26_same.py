"""C26: the API gives the maps which the command with the same settings writes."""
from engine.runner import Harness
from engine.lib import t_and
from .run_common import *
from .map_files import *
from .c16_maps import FakeGdal, api_conf, is_sym_, read_maps
import pyg2p.main.manipulation.correction as corr

ASSUMPTIONS = ['interpolation and correction are stand-ins that record their settings (whether these are followed is the matter of other properties)',
               'parallel interpolation is not compared: the API asks for it unless told otherwise, and it gives the same values (C09)', 'settings are given in the types which the README uses']
PARAMETERS = {'tp': {'@shortName': 'tp', '@description': 'rain', '@unit': 'mm', 'Conversion': [
    {'@id': 'cut', '@unit': 'u', '@function': 'x=x-(1)', '@cutOffNegative': 'True'}, {'@id': 'keep', '@unit': 'v', '@function': 'x=x*3', '@cutOffNegative': 'False'}, {'@id': 'same', '@unit': 'w', '@function': 'x=x'}]}}
SETTINGS = ('interpolation.mode', 'interpolation.cdd_map', 'interpolation.cdd_mode', 'interpolation.cdd_options', 'interpolation.use_broadcasting', 'interpolation.num_of_splits',
            'interpolation.rotated_target', 'interpolation.latMap', 'interpolation.lonMap', 'interpolation.create', 'interpolation.dirs', 'geopotential.dirs', 'outMaps.clone', 'correction.formula',
            'correction.gemFormula', 'correction.demMap', 'parameter.shortName', 'parameter.conversionUnit', 'parameter.unit', 'parameter.description')


class Setting:
    """the same setting for the command (options or commands file) and the API"""
    def __init__(self):
        self.opts, self.param, self.out, self.interp, self.agg = [], {}, {}, {}, {}
        self.api = dict(top={}, Parameter={}, OutMaps={}, Interpolation={}, Aggregation={})

    def line(self, opt, key, v):
        if v is not None:
            self.opts += [opt] + ([] if v is True else [v])
            self.api['top'][key] = v

    def file(self, part, key, v, api_value=None):
        if v is not None:
            {'Parameter': self.param, 'OutMaps': self.out, 'Interpolation': self.interp, 'Aggregation': self.agg}[part]['@' + key] = v
            self.api[part][key] = v if api_value is None else api_value


def settings(t, group, d, s):
    c = t.choice
    if group == 'steps':
        s.line('-s', 'start', c('start', [None, 0, 6]))
        s.line('-e', 'end', c('end', [None, 0, 12]))
    elif group == 'steps in file':
        s.file('Parameter', 'tstart', c('start', [None, 0, 6]))
        s.file('Parameter', 'tend', c('end', [None, 0, 12]))
    elif group == 'keys':
        s.file('Parameter', 'level', c('level', [None, 0, 2]))
        k, v = c('key', [(None, None), ('-D', 20200102), ('-T', 0), ('-T', 1200), ('-m', 0), ('-m', 1)])
        if k:
            s.line(k, {'-D': 'dataDate', '-T': 'dataTime', '-m': 'perturbationNumber'}[k], v)
    elif group == 'keys in file':
        k, v = c('key', [('dataDate', 20200102), ('dataTime', 0), ('dataTime', 1200), ('perturbationNumber', 0), ('perturbationNumber', 1)])
        s.file('Parameter', k, v)
    elif group == 'aggregation':
        kind = c('manipulation', ['accumulation', 'average', 'instantaneous'])
        s.file('Aggregation', 'type', kind)
        s.file('Aggregation', 'step', c('aggregation step', [6, 12]))
        if kind == 'average':
            s.file('Aggregation', 'halfweights', c('half weights', [None, True, False]))
            # from the first window on: see the known finding of averages from step 0
            s.line('-s', 'start', s.agg['@step'])
        if kind == 'accumulation':
            s.file('Aggregation', 'forceZeroArray', c('zero array', [None, 'True', 'False']))
            s.file('OutMaps', 'unitTime', c('unit time', [None, 6, 12]))
    elif group == 'conversion':
        s.file('Parameter', 'applyConversion', c('conversion', ['cut', 'keep', 'same']))
        if t.flag('corrected'):
            s.file('Parameter', 'correctionFormula', 'p+gem+dem')
            s.file('Parameter', 'gem', 'z/9.81')
            s.file('Parameter', 'demMap', 'dem.map', d + '/dem.map')
        if t.flag('aggregated'):
            s.file('Aggregation', 'type', 'accumulation')
            s.file('Aggregation', 'step', 6)
    elif group == 'interpolation':
        s.file('Interpolation', 'mode', c('mode', [None, 'grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay']))
        k = c('more', ['nothing', 'adw', 'cdd', 'rotated', 'create'])
        if k == 'adw':
            s.file('Interpolation', 'use_broadcasting', True)
            s.file('Interpolation', 'num_of_splits', 3)
        if k == 'cdd':
            s.file('Interpolation', 'cdd_map', '/maps/cdd.nc')
            s.file('Interpolation', 'cdd_mode', 'Hofstra')
            s.file('Interpolation', 'cdd_options', {'m_const': 4, 'min_num_of_station': 4, 'radius_ratio': 3, 'weights_mode': 'All'})
        if k == 'rotated':
            s.file('Interpolation', 'rotated_target', True)
        if k == 'create':
            s.line('-B', 'createIntertable', True)
    elif group == 'folders':
        s.line('-N', 'intertableDir', c('table folder', [None, d + '/tables/']))
        s.line('-G', 'geopotentialDir', c('geopotential folder', [None, d + '/geo/']))
    elif group == 'two files':
        s.line('-I', 'inputFile2', d + '/b.grb')
        if t.flag('aggregated'):
            s.file('Aggregation', 'type', c('manipulation', ['accumulation', 'average', 'instantaneous']))
            s.file('Aggregation', 'step', 6)
            if s.agg['@type'] == 'average':
                s.file('Aggregation', 'halfweights', t.flag('half weights'))


def make_messages(t, group):
    out = []
    for i in range(5):
        vals = [t.real(f'v{i}_{j}', -1000, 1000) if (i + j) % 5 else 9999.0 for j in range(6)]
        m = message(arr(t, vals), (6 * i, 6 * i), Ni=3, Nj=2, stepType='instant', bitmapPresent=1, bitmap=np.array([int((i + j) % 5 > 0) for j in range(6)]))
        if 'keys' in group:
            m.update(level=2 * (i % 2) if 'file' not in group else 0, dataDate=20200101 + i % 2, dataTime=(0, 1200)[i // 2 % 2], perturbationNumber=i // 2 % 2)
        if group == 'two files' and i > 2:
            m.update(Ni=2, Nj=3)
        m['_i'] = i
        out.append(m)
    return out


def same(t, group):
    with Scratch() as d:
        home = Home(d)
        home.glob['parameters.json'] = PARAMETERS
        outside = t.choice('cells outside the clone', [(), (1, 5)])
        make_map(d, 'clone', 'map', outside)
        make_target(d, 'map')
        s = Setting()
        for g_ in group.split('+'):
            settings(t, g_, d, s)
        msgs = make_messages(t, group)
        src = {'a.grb': msgs} if group != 'two files' else {'a.grb': msgs[:3], 'b.grb': [dict(msgs[2], Ni=2, Nj=3)] + msgs[3:]}
        home.gribs(src)
        sides = []
        for side in ('command', 'api'):
            g, fake, used, seen, fixed, steps = Grib(src), FakeGdal(), [], [], [], []
            shape = (2, 3)

            def init(self, ctx, mv_input=None):
                seen.append([repr(ctx.get(k)) for k in SETTINGS] + [mv_input])

            class Correct:
                def correct(self, v):
                    return v

            def instance(cls, ctx, grid_id):
                fixed.append((grid_id, [repr(ctx.get(k)) for k in SETTINGS]))
                return Correct()
            rec = RecInterpolator(used, lambda v: v.reshape(shape).copy())
            stubs = [x for x in rec.stubs() if x[1] != '__init__'] + [(interp.Interpolator, '__init__', init), (corr.Corrector, 'get_instance', classmethod(instance))]
            if t.symbolic:
                stubs.append((wpcr, 'gdal', fake))
            execute = controller.Controller.execute

            def recorded(self, *a, **k):
                r = execute(self, *a, **k)
                steps.append([(x.start_step, x.end_step, x.resolution, x.input_step, x.level) for x in r[0]])
                return r
            error, maps = None, []
            with Patched(*home.stubs(), *g.stubs(), *stubs, (controller.Controller, 'execute', recorded)):
                try:
                    if side == 'command':
                        argv = home.argv(*s.opts, param=s.param, out=dict(s.out, **{'@format': 'pcraster'}), interpolation=s.interp, aggregation=s.agg)
                        if '@mode' not in s.interp:
                            with open(argv[1]) as f:
                                u = json.load(f)
                            del u['Execution']['OutMaps']['Interpolation']['@mode']
                            with open(argv[1], 'w') as f:
                                json.dump(u, f)
                        c = controller.Controller(context.ExecutionContext(argv))
                        try:
                            c.execute()
                        finally:
                            c.close()
                        maps = [a for _, a, _ in (fake.maps if t.symbolic else read_maps(d + '/out'))]
                    else:
                        conf = api_conf(d, {}, 'clone.map', 'lat.map', 'lon.map', **s.api['top'])
                        conf['Parameter'].update(s.api['Parameter'])
                        conf['OutMaps'].pop('unitTime')
                        conf['OutMaps'].update(s.api['OutMaps'])
                        conf['OutMaps']['Interpolation'].pop('mode')
                        conf['OutMaps']['Interpolation'].update(s.api['Interpolation'])
                        if s.api['Aggregation']:
                            conf['Aggregation'] = s.api['Aggregation']
                        p = api.Pyg2pApi(api.ApiContext(conf))
                        out = p.execute()
                        maps = list(out.values())
                        t.check('fields in the order of the steps', [(x.start_step, x.end_step, x.resolution, x.input_step, x.level) for x in out] == steps[0])
                except ApplicationException as e:
                    error = e.code
                except IndexError:
                    # periods beyond the last selected message
                    error = 'IndexError'
            sides.append(dict(error=error, maps=maps, used=[u for u in used if 'v' in u], aux=[u for u in used if 'aux' in u], seen=seen, fixed=fixed, steps=steps))
            t.check('messages released', not g.live and not g.problems and not g.open_indexes)
        a, b = sides
        t.cover('refused by both' if a['error'] and b['error'] else 'same maps')
        t.check('both run or both refuse', a['error'] == b['error'])
        if a['error'] or b['error']:
            return
        t.check('same steps', a['steps'] == b['steps'])
        # the API reads its settings again after the run
        t.check('same settings of the interpolation', all(x == a['seen'][0] for x in a['seen'] + b['seen']))
        t.check('same settings of the correction', a['fixed'] == b['fixed'])
        t.check('tables of GRIB methods made from messages', bool(a['aux']) == bool(b['aux']))
        t.check('as many maps', len(a['maps']) == len(b['maps']) == len(a['used']) == len(b['used']) and len(a['maps']) > 0)
        for x, y in zip(a['used'], b['used']):
            t.check('same grid', x['grid_id'] == y['grid_id'] and x['second'] == y['second'] and np.array_equal(x['lats'], y['lats']) and np.array_equal(x['lons'] if 'lons' in x else 0, y['lons'] if 'lons' in y else 0))
        for x, y in zip(a['maps'], b['maps']):
            t.check('shape', np.shape(x) == np.shape(y) == (2, 3))
            for i in range(2):
                for j in range(3):
                    p, q = (v if is_sym_(v) else float(v) for v in (x[i][j], y[i][j]))
                    tol = 1e-9 if t.symbolic else 1e-2
                    t.check('same value in each cell', t_and(p - q <= tol, q - p <= tol) if is_sym_(p) or is_sym_(q) else p == q or abs(p - q) <= tol)


GROUPS = ('steps', 'steps in file', 'keys', 'keys in file', 'aggregation', 'conversion', 'interpolation', 'folders', 'two files')
PAIRS = [(a, b) for a in ('steps', 'steps in file', 'keys', 'keys in file') for b in ('conversion', 'interpolation', 'folders')] + [
    ('interpolation', 'folders'), ('interpolation', 'aggregation'), ('conversion', 'interpolation'), ('folders', 'conversion'), ('two files', 'interpolation'), ('two files', 'folders'), ('keys', 'steps')]
HARNESSES = [
    Harness('same maps', same, [dict(group=g) for g in GROUPS], ['ExecutionContext', 'ApiContext', 'Controller.execute', 'Pyg2pApi.execute', 'OutputWriter._write_maps_pcraster', 'PCRasterWriter.write'],
            bounds='five messages of six cells, any values, some cells missing; every combination of a few values per group of settings (pairs of groups in the thorough tier): steps, keys, aggregation, conversion and correction, interpolation, folders, two files; clone with and without cells outside',
            thorough_params=[dict(group=g) for g in GROUPS] + [dict(group=f'{a}+{b}') for a, b in PAIRS],
            stubs=['eccodes (in-memory)', 'Interpolator', 'Corrector', 'gdal of the writer (symbolic runs only)', 'numexpr interpreter'], covers=['same maps']),
]
