"""C19: failures end in a non-zero exit code and every resource opened by a run is released."""
import builtins
import logging
import pyg2p.main.manipulation.aggregator as agg
import pyg2p.main.manipulation.conversion as conv
from pyg2p.exceptions import NO_MESSAGES
from engine.runner import Harness
from engine.lib import t_and
from .run_common import *
from .map_files import *
from .c16_maps import FakeGdal, api_conf
from .c18_configuration import At, World, PARAMS
from .c20_correction import regrid, reset

ASSUMPTIONS = ['eccodes, GDAL output, netCDF4 output, FTP and the interpolation methods are stand-ins whose calls can fail; releasing and closing do not fail',
               'at most one call of a run fails', 'GDAL gives no dataset when it cannot create a map (its default, without exceptions)']
KINDS = {'application': lambda: ApplicationException.get_exc(2000, 'planted'), 'system': lambda: OSError(5, 'planted'), 'library': lambda: eccodes.GribInternalError('planted'),
         'value': lambda: ValueError('planted'), 'interrupt': lambda: KeyboardInterrupt('planted')}


class Faults:
    """The call number `at` of the instrumented calls fails"""
    def __init__(self, at=None, kind=None):
        self.at, self.kind, self.n, self.fired, self.error = at, kind, 0, None, None

    def tick(self, label):
        if self.at is None or self.fired:
            self.n += 1
            return
        self.n += 1
        if bool(self.at == self.n):
            self.fired = label
            self.error = KINDS[self.kind]()
            raise self.error

    def wrap(self, cls, name):
        f, s = vars(cls).get(name), self
        if not callable(f):
            return []

        def call(*a, **k):
            s.tick(name)
            return f(*a, **k)
        return [(cls, name, call)]


class FaultyGrib(Grib):
    def __init__(self, files, faults, indexable=True):
        super().__init__(files, indexable)
        self.faults = faults

    def tick(self, name):
        self.faults.tick(name)

    def index_select(self, *a):
        self.tick('codes_index_select')
        super().index_select(*a)


class FaultyGdal(FakeGdal):
    def __init__(self, faults):
        super().__init__()
        self.faults = faults

    def GetDriverByName(self, name):
        real, s = super().GetDriverByName(name), self

        class Driver:
            def Register(self):
                pass

            def CreateCopy(self, *a, **k):
                if name == 'PCRaster':
                    try:
                        s.faults.tick('CreateCopy')
                    except (OSError, KeyboardInterrupt) as e:
                        if isinstance(e, OSError):
                            return None   # as GDAL does
                        raise
                return real.CreateCopy(*a, **k)
        return Driver()


class FaultyNetCDF(FakeNetCDF):
    def __init__(self, faults):
        super().__init__()
        self.datasets = opened = []

        class Dataset(self.Dataset):
            def __init__(self, *a, **k):
                faults.tick('Dataset')
                super().__init__(*a, **k)
                opened.append(self)

            def createVariable(self, *a, **k):
                faults.tick('createVariable')
                return super().createVariable(*a, **k)
        self.Dataset = Dataset


class Files:
    """Files opened by the code"""
    def __init__(self):
        self.opened = []

    def stubs(s):
        def opened(*a, **k):
            f = builtins.open(*a, **k)
            s.opened.append(f)
            return f
        return [(m, 'open', opened) for m in (rgrib, cfg)]


class Log(logging.Handler):
    def __enter__(self):
        self.records, self.root = [], logging.getLogger()
        self.level0, self.off = self.root.level, self.root.manager.disable
        self.root.addHandler(self)
        logging.disable(logging.NOTSET)
        self.root.setLevel(logging.WARNING)
        return self

    def __exit__(self, *a):
        self.root.removeHandler(self)
        self.root.setLevel(self.level0)
        logging.disable(self.off)

    def emit(self, r):
        self.records.append(r)

    def errors(self):
        return '\n'.join(r.getMessage() for r in self.records if r.levelno >= logging.ERROR)


def exit_code(run):
    """(exit code of the process, exception it ended with)"""
    try:
        return run() or 0, None
    except (Exception, KeyboardInterrupt) as e:
        return 1, e


def scenario(t, d, name, msgs):
    """(home arguments, files)"""
    home = Home(d)
    make_map(d, 'clone', 'map', ())
    make_target(d, 'map')
    make_map(d, 'dem', 'map', ())
    kw, opts, src = {}, [], {'a.grb': msgs}
    if name == 'netcdf':
        kw = dict(aggregation={'@step': 6, '@type': 'accumulation'}, out={'@format': 'netcdf', '@unitTime': '6'})
    if name == 'conversion':
        kw = dict(param={'@applyConversion': 'neg'})
        home.glob['parameters.json']['tp']['Conversion']
    if name == 'two files':
        kw = dict(interpolation={'@mode': 'grib_nearest'})
        second = []
        for i, m in enumerate(msgs):
            s = dict(m, Nj=3, Ni=2, startStep=12 + 6 * i, endStep=18 + 6 * i)
            second.append(s)
        src['b.grb'] = second
        opts += ['-I', d + '/b.grb']
    if name == 'correction':
        kw = dict(param={'@correctionFormula': 'p+gem-dem', '@gem': 'z*2', '@demMap': 'dem.map'})
        src['user/geo.grb'] = [message(np.arange(6.0), (0, 0), shortName='z' if t.flag('the geopotential file has a geopotential') else 'tp', Ni=3, Nj=2)]
        os.makedirs(d + '/user', exist_ok=True)
    home.gribs(src)
    return home, kw, opts, {os.path.basename(k): v for k, v in src.items()}


def run(t, name, kind, through, indexable):
    with Scratch() as d:
        vals = [[t.real(f'v{i}_{j}', -10, 10) for j in range(6)] for i in range(2)]
        stype = 'accum' if name == 'netcdf' else 'instant'
        msgs = [message(arr(t, vals[i]), (0 if name == 'netcdf' else 6 * i, 6 * i + 6), Ni=3, Nj=2, stepType=stype) for i in range(2)]
        member = None
        if name == 'member':
            for i, m in enumerate(msgs):
                m['perturbationNumber'] = 3 + i
            member = t.choice('ensemble member', [3, 4, 5])
        home, kw, opts, src = scenario(t, d, name, msgs)
        if member is not None:
            opts += ['-m', member]
        if through == 'api':
            conf = api_conf(d, {}, 'clone.map', 'lat.map', 'lon.map', 'grib_nearest' if name == 'two files' else 'nearest', inputFile=d + '/a.grb')
            if name == 'two files':
                conf['inputFile2'] = d + '/b.grb'
            if name == 'conversion':
                conf['Parameter']['applyConversion'] = 'neg'
            if name == 'correction':
                conf['Parameter'].update(correctionFormula='p+gem-dem', gem='z*2', demMap=d + '/dem.map')
            if name == 'netcdf':
                conf['Aggregation'] = dict(step=6, type='accumulation')
            if member is not None:
                conf['perturbationNumber'] = member
        results = []
        at = t.int('failing call', 0, 2000)
        for faulty in (False, True):
            faults = Faults(at if faulty else None, kind)
            g, fake, fakenc, files = FaultyGrib(src, faults, indexable), FaultyGdal(faults), FaultyNetCDF(faults), Files()
            extra = reset(t)
            for c, n, f in regrid('k'):
                def call(*a, _f=f, _n=n, **k):
                    faults.tick(_n)
                    return _f(*a, **k)
                extra.append((c, n, call))
            for c, names in ((agg.Aggregator, ('__init__', 'do_manipulation')), (conv.Converter, ('__init__', 'convert')), (interp.Interpolator, ('__init__',))):
                for n in names:
                    extra += faults.wrap(c, n)
            writers_log = []
            for c in (wpcr.PCRasterWriter, wnc.NetCDFWriter):
                def init(self, *a, _f=c.__init__, **k):
                    faults.tick('writer')
                    _f(self, *a, **k)
                    writers_log.append(['opened', self])

                def close(self, *a, _f=c.close, **k):
                    writers_log.append(['closed', self])
                    return _f(self, *a, **k)
                extra += [(c, '__init__', init), (c, 'close', close)]
            out = None
            with Patched(*home.stubs(), *g.stubs(), *files.stubs(), (wpcr, 'gdal', fake), (wnc, 'Dataset', fakenc.Dataset), *extra), Log() as log:
                if name == 'correction':
                    quiet = Grib(src)
                    with Patched(*quiet.stubs()):
                        home.glob['geopotentials.json'] = {pyg2p.GribGridDetails(quiet.new(msgs[0])).grid_id: 'geo.grb'}
                if through == 'api':
                    def go():
                        nonlocal out
                        out = api.Pyg2pApi(api.ApiContext(conf)).execute()
                else:
                    argv = home.argv(*opts, **kw)
                    if through == 'command':
                        go = lambda: main.pyg2p_exe(argv)
                    else:
                        c = api.command()
                        for o, v in zip(argv[::2], argv[1::2]):
                            c._d[o] = v
                        go = c.run
                rc, err = exit_code(go)
            if through == 'api':
                maps = None if out is None else [(k.end_step, v) for k, v in out.items()]
                made = 0 if out is None else len(out)
            elif name == 'netcdf':
                maps = [(0, np.array(fakenc.read(k)['vars']['tp']['data'], dtype=object)) for k in fakenc.files] if not rc else None
            else:
                maps = [(os.path.basename(k), v) for k, v, _ in fake.maps]
            t.check('messages released', not g.live and not g.open_indexes and not g.problems)
            t.check('files closed', all(f.closed for f in files.opened))
            t.check('netCDF file closed', all(x.closed for x in fakenc.datasets))
            o, c = [id(x) for k, x in writers_log if k == 'opened'], [id(x) for k, x in writers_log if k == 'closed']
            t.check('writers closed', set(o) <= set(c))
            results.append((rc, err, maps, log.errors(), faults))
        (rc0, err0, maps0, log0, f0), (rc, err, maps, log1, f) = results
        if member == 5:
            if through != 'api':
                t.check('no messages: exit code 0', rc0 == 0 and err0 is None)
                t.check('no messages: reason logged', 'No Messages found' in log0)
            else:
                t.check('no messages: the caller is told', isinstance(err0, ApplicationException) and err0.code == NO_MESSAGES)
            t.check('no messages: no maps', not maps0)
        elif name == 'correction' and src['geo.grb'][0]['shortName'] != 'z':
            t.check('a file without geopotential ends the run with an error', rc0 == 1 and (through == 'api' or err0 is None))
            t.check('no maps without geopotential', not maps0)
            t.check('the lack of a geopotential is logged', through == 'api' or bool(log0.strip()))
        else:
            t.check('exit code 0 without failures', rc0 == 0 and err0 is None)
            t.check('maps without failures', bool(maps0))
        if f.fired is None:
            t.cover('no failure')
            return
        t.cover('a call failed')
        if rc == 0 and err is None:
            t.check('success means that all maps are there', (maps is None) == (maps0 is None) and (maps is None or len(maps) == len(maps0) and all(a[0] == b[0] for a, b in zip(maps, maps0))))
            t.check('success means that all maps are right', maps is None or t_and(*[x == y or (x != x and y != y) for a, b in zip(maps, maps0) for x, y in zip(cells(a[1]), cells(b[1]))]))
            if member == 5:
                t.check('the reason is logged', 'No Messages found' in log1)
        elif through != 'api' and kind == 'application':
            t.check('application errors end in exit code 1', err is None and rc == 1)
            t.check('the reason is logged', 'planted' in log1)
        elif through != 'api' and err is None:
            t.check('exit code not zero', rc == 1)
            t.check('the reason is logged', bool(log1.strip()))


CALLS = ('FTP', 'cwd', 'nlst', 'retrbinary', 'quit')


def configuration(t, command, kind):
    """-g, -W and -K"""
    with Scratch() as d:
        os.makedirs(d + '/user', exist_ok=True)
        os.makedirs(d + '/global', exist_ok=True)
        glob = dict(PARAMS, **{'geopotentials.json': {}, 'intertables.json': {}})
        w = World(t, d, {'p.conf': [f'INTERTABLES={d}/user', f'GEOPOTENTIALS={d}/user']}, glob, {'ftp.json': {'host': 'h', 'user': 'u', 'pwd': 'p', 'folder': 'f'}})
        faults = Faults(t.int('failing call', 0, 200), kind)
        has_z = t.flag('the file has a geopotential') if command == '-g' else True
        g = FaultyGrib({'geo.grb': [message(np.arange(4.0), (0, 0), shortName='z' if has_z else 'tp', Ni=2, Nj=2)]}, faults, t.flag('the file can be indexed') if command == '-g' else True)
        with open(d + '/geo.grb', 'wb') as f:
            f.write(bytes([0]))
        state = dict(open=0)
        remote = {'x.grb': b'1' * 20, 'y.grb': b'2' * 20}

        class FTP:
            def __init__(self, *a, **k):
                faults.tick('FTP')
                state['open'] += 1

            def cwd(self, p):
                faults.tick('cwd')

            def nlst(self, *a):
                faults.tick('nlst')
                return ['.', '..', 'readme.txt'] + sorted(remote)

            def retrbinary(self, cmd, callback, *a, **k):
                faults.tick('retrbinary')
                x = remote[cmd.split()[1]]
                callback(x[:10])
                faults.tick('block')
                callback(x[10:])

            def quit(self):
                faults.tick('quit')
                state['open'] -= 1

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.quit()
        files = Files()
        argv = {'-g': ['-g', d + '/geo.grb'], '-W': ['-W', t.choice('dataset', ['geopotentials', 'intertables', 'nothing']) if command == '-W' else ''], '-K': ['-K']}[command]
        with At(d), Patched(*w.stubs(), *g.stubs(), *files.stubs(), (cfg, 'FTP', FTP)), Log() as log:
            rc, err = exit_code(lambda: main.pyg2p_exe(argv))
        t.check('messages released', not g.live and not g.open_indexes and not g.problems)
        t.check('files closed', all(f.closed for f in files.opened))
        ok = rc == 0 and err is None
        if faults.fired is None and not (command == '-W' and argv[1] == 'nothing') and has_z:
            t.cover('no failure')
            t.check('exit code 0 without failures', ok)
        if not has_z:
            t.check('a file without geopotential is refused', not ok and os.listdir(d + '/user') == [])
        if ok:
            if command == '-g':
                t.check('success means that the file is registered', os.listdir(d + '/user') == ['geo.grb'])
                with open(d + '/home/geopotentials.json') as f:
                    t.check('success means that the grid is registered', 'geo.grb' in json.load(f).values())
            if command == '-W':
                got = {}
                for n in os.listdir(d + '/user'):
                    with open(d + '/user/' + n, 'rb') as f:
                        got[n] = f.read()
                t.check('success means that all files are there', got == remote)
        elif err is None:
            t.check('exit code not zero', rc == 1)
            t.check('the reason is logged', bool(log.errors().strip()))
        if kind == 'application' and faults.fired and not ok:
            t.check('application errors end in exit code 1', rc == 1 and err is None and 'planted' in log.errors())


SCENARIOS = ('plain', 'netcdf', 'conversion', 'two files', 'correction', 'member')


def run_params(kinds, indexable, throughs=('command', 'api')):
    return [dict(name=n, kind=k, through=th, indexable=i) for n in SCENARIOS for k in kinds for th in throughs for i in indexable]


HARNESSES = [
    Harness('run', run, run_params(('application', 'library'), (True,)) + run_params(('system',), (False,)), thorough_params=run_params(tuple(KINDS), (True, False), ('command', 'api', 'Command')),
            functions=['pyg2p.main.pyg2p_exe', 'pyg2p.main.execute', 'Controller', 'GRIBReader', 'OutputWriter', 'PCRasterWriter', 'NetCDFWriter', 'Corrector', 'Pyg2pApi.execute'],
            bounds='2 messages of 6 cells; every call of a run into eccodes, the interpolation, the aggregation, the conversion and the writers can be the one that fails', covers=('no failure', 'a call failed'),
            stubs=['eccodes', 'GDAL and netCDF4 output', 'interpolation methods']),
    Harness('configuration', configuration, [dict(command=c, kind=k) for c in ('-g', '-W', '-K') for k in ('application', 'system')],
            thorough_params=[dict(command=c, kind=k) for c in ('-g', '-W', '-K') for k in KINDS],
            functions=['pyg2p_exe', 'config_command', 'Configuration'], bounds='2 remote files of 2 blocks, one geopotential file', covers=('no failure',), stubs=['eccodes', 'FTP'])]
