"""C17: the command line overrides the JSON commands file, which overrides defaults; bad options are refused first."""
from engine.runner import Harness
from engine.lib import text_eq, t_and, t_or, t_not, sym_int
from .run_common import *
from .map_files import *
from .c16_maps import api_conf

ASSUMPTIONS = ['interpolation is a stand-in; map writers are stand-ins that record names and values (netCDF files: a stand-in in symbolic runs, the real library for the witnesses of the paths)',
               'numbers are given as decimal digits, on the command line and in the JSON file']
DATES, TIMES, MEMBERS = (20200101, 20200102), (0, 1200), (0, 1)
OPTS = {'tstart': ('-s', '@tstart'), 'tend': ('-e', '@tend'), 'dataDate': ('-D', '@dataDate'), 'dataTime': ('-T', '@dataTime'), 'perturbationNumber': ('-m', '@perturbationNumber')}


def given(t, name, lo, hi, json_kind, only=None):
    """(value in force or None, command line value or None, JSON value or None)"""
    val = (lambda k: t.choice(f'{name} value {k}', list(only))) if only and json_kind == 'number' else (lambda k: t.int(f'{name} value {k}', lo, hi)) if json_kind == 'text' else (lambda k: t.choice(f'{name} value {k}', [lo, lo + 1, hi]))
    cli = val('on the command line') if t.flag(f'{name} on the command line') else None
    js = val('in the JSON file') if t.flag(f'{name} in the JSON file') else None
    return (cli if cli is not None else js), cli, js


def messages(t, names, json_kind, through):
    """Which messages are used"""
    with Scratch() as d:
        home = Home(d)
        lims = {'tstart': (0, 40), 'tend': (0, 40), 'dataDate': (20200100, 20200103), 'dataTime': (0, 1201), 'perturbationNumber': (0, 2)}
        got = {n: given(t, n, *lims[n], json_kind, {'dataTime': TIMES, 'dataDate': DATES}.get(n)) for n in names}
        if 'dataTime' in got and got['dataTime'][1] is not None:
            t.assume(t_or(got['dataTime'][1] == 0, got['dataTime'][1] == 1200))
        msgs = []
        for i in range(5):
            m = message(arr(t, [t.real(f'v{i}', -10, 10), 1.0]), (6 * i, 6 * i), dataDate=DATES[i % 2 if 'dataDate' in names else 0], dataTime=TIMES[i // 2 % 2 if 'dataTime' in names else 0])
            if 'perturbationNumber' in names:
                m['perturbationNumber'] = MEMBERS[i % 2]
            msgs.append(m)
        home.gribs({'a.grb': msgs})
        g, log, used = Grib({'a.grb': msgs}), [], []
        refused = None
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator(used).stubs(), *RecWriter(log).stubs()):
            try:
                if through == 'command':
                    opts, param = [], {}
                    for n in names:
                        _, cli, js = got[n]
                        if cli is not None:
                            opts += [OPTS[n][0], f'{cli}']
                        if js is not None:
                            param[OPTS[n][1]] = f'{js}' if json_kind == 'text' else js
                    ctx = context.ExecutionContext(home.argv(*opts, param=param))
                    c = controller.Controller(ctx)
                    c.execute()
                    c.close()
                    fields = [a[1] for a, _ in log]
                else:
                    make_map(d, 'clone', 'map', ())
                    conf = api_conf(d, {}, 'clone.map', 'lat.map', 'lon.map')
                    for n in names:
                        _, cli, js = got[n]
                        if cli is not None:
                            conf[{'tstart': 'start', 'tend': 'end'}.get(n, n)] = cli
                        if js is not None:
                            conf['Parameter'][n] = js if json_kind == 'number' else f'{js}'

                    class Clone:
                        mv = -9999.0
                        values = np.ones(1)

                        def __init__(self, *a):
                            pass
                    with Patched((api, 'PCRasterReader', Clone)):
                        fields = list(api.Pyg2pApi(api.ApiContext(conf)).execute().values())
            except ApplicationException as e:
                refused = e
        eff = {n: got[n][0] for n in names}
        s, e = eff.get('tstart'), eff.get('tend')
        t.cover('refused' if refused else 'used')
        backwards = t_not(s <= e) if s is not None and e is not None else False
        others = [m for m in msgs if all(bool(m[n] == eff[n]) for n in ('dataDate', 'dataTime', 'perturbationNumber') if eff.get(n) is not None)]
        steps = [m['endStep'] for m in msgs if eff.get('perturbationNumber') is None or bool(m['perturbationNumber'] == eff['perturbationNumber'])]
        end = e if e is not None else max(steps or [0])
        sel = [m for m in others if bool(m['endStep'] <= end) and (s is None or bool(m['startStep'] >= s))]
        if s is not None and not sel and bool(s > 0) and not bool(s == end):
            # as for fields cumulated from the start of the forecast
            sel = [m for m in others if bool(m['endStep'] <= end)]
        if refused is not None:
            t.check('refused only if nothing is selected', True if not sel else backwards)
            t.check('nothing written', not log)
            return
        t.check('start after end is refused', t_not(backwards))
        # each field that is used belongs to a selected message, in order, and each selected message is used
        exp = [ma.getdata(m['values'])[0] for m in sel]
        t.check('one field per selected message', len(fields) == len(exp))
        for x, y in zip(fields, exp):
            t.eq('the field of the selected message', cells(x)[0][1], y)


def numbers(t, json_kind, big):
    """First map number and extension step"""
    with Scratch() as d:
        home = Home(d)
        f, fc, fj = given(t, 'fmap', 0, big, json_kind)
        x, xc, xj = given(t, 'ext', 1, big, json_kind)
        msgs = [message(arr(t, [1.0 * i, 1.0]), (6 * i, 6 * i)) for i in range(2)]
        home.gribs({'a.grb': msgs})
        g, log = Grib({'a.grb': msgs}), []
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator([]).stubs(), *RecWriter(log).stubs()):
            text = (lambda v: f'{v}') if json_kind == 'text' else (lambda v: v)
            opts = (['-f', f'{fc}'] if fc is not None else []) + (['-x', f'{xc}'] if xc is not None else [])
            out = {k: text(v) for k, v in (('@fmap', fj), ('@ext', xj)) if v is not None}
            c = controller.Controller(context.ExecutionContext(home.argv(*opts, out=out)))
            c.execute()
            c.close()
        f, x = 1 if f is None else f, 1 if x is None else x
        t.cover('written')
        t.check('two maps', len(log) == 2)
        for i, (a, k) in enumerate(log):
            n = f + i * x
            digits = f'{n:01d}'
            name = 'tp' + '0' * (9 - len(digits)) + digits
            t.check('number of the map', text_eq(str(a[0]), d + '/out/' + name[:8] + '.' + name[8:]))


TEXTS = {'namePrefix': ('-n', '@namePrefix', ['tp', 'abc', 'pre']), 'format': ('-F', '@format', ['pcraster', 'netcdf']), 'scaleFactor': ('-S', '@scaleFactor', ['1.0', '0.5', '2']),
         'offset': ('-O', '@offset', ['0', '-3.5', '7']), 'validMin': ('-vm', '@validMin', ['0', '-20', '-400']), 'validMax': ('-vM', '@validMax', ['0', '50', '100']),
         'valueFormat': ('-vf', '@valueFormat', ['f8', 'i4', 'f4']), 'outputStepUnits': ('-U', '@outputStepUnits', ['h', 'D', 'm'])}
DEFAULTS = {'namePrefix': 'tp', 'format': 'pcraster', 'scaleFactor': '1', 'offset': '0', 'validMin': None, 'validMax': None, 'valueFormat': 'f8', 'outputStepUnits': None}


def texts(t, names, extra):
    """Options of the output files"""
    with Scratch() as d:
        home = Home(d)
        clone = make_map(d, 'clone', 'map', ())
        lat, lon, lats, lons = make_target(d, 'map')
        msgs = [message(arr(t, [1.0, 2.0]), (24 * i, 24 * i)) for i in range(2)]
        home.gribs({'a.grb': msgs})
        g, vals = Grib({'a.grb': msgs}), [t.real(f'v{j}', -50, 50) for j in range(6)]
        eff, opts, out, num = dict(DEFAULTS), [], {'@cloneMap': clone}, t.flag('numbers of the JSON file are not quoted')
        for n in list(names) + list(extra):
            opt, key, choices = TEXTS[n]
            cli = t.choice(f'{n} on the command line', [None] + choices) if n in names else None
            js = t.choice(f'{n} in the JSON file', [None] + choices) if n in names else extra[n]
            if cli is not None:
                # values like -3.5 need the form with =
                opts += [f'{opt}={cli}'] if cli[0] == '-' and len(opt) == 2 else [opt, cli]
            if js is not None:
                out[key] = float(js) if num and n in ('scaleFactor', 'offset', 'validMin', 'validMax') else js
            eff[n] = cli if cli is not None else js if js is not None else DEFAULTS[n]
        fake = FakeNetCDF()
        log, w = [], RecWriter([])
        scipy = lambda self, *a: arr(t, vals, None, (2, 3))
        patches = [(interp.Interpolator, 'interpolate_scipy', scipy)]
        if t.symbolic:
            patches.append((wnc, 'Dataset', fake.Dataset))
            patches += [p for p in RecWriter(log).stubs() if p[0] is wpcr.PCRasterWriter]
        with Patched(*home.stubs(), *g.stubs(), *patches):
            c = controller.Controller(context.ExecutionContext(home.argv(*opts, out=out, interpolation={'@latMap': lat, '@lonMap': lon})))
            c.execute()
            c.close()
        made = files_under(d + '/out') if not t.symbolic else [os.path.relpath(x, d + '/out') for x in fake.files] + [os.path.relpath(str(a[0]), d + '/out') for a, _ in log]
        made = sorted(x for x in made if not x.endswith('.xml'))
        p = eff['namePrefix']
        if eff['format'] == 'pcraster':
            t.cover('pcraster')
            t.check('PCRaster maps with the prefix', made == [(p + '0' * (11 - len(p) - 1) + k)[:8] + '.00' + k for k in '12'])
            return
        t.cover('netcdf')
        t.check('a netCDF file with the prefix', len(made) == 1 and made[0].startswith(p + '_') and made[0].endswith('.nc'))
        path = f'{d}/out/{made[0]}'
        f = fake.read(path) if t.symbolic else read_back(path)
        t.check('variable named after the prefix', p in f['vars'])
        v = f['vars'][p]
        sf, off = float(eff['scaleFactor']), float(eff['offset'])
        t.check('format', v['dtype'] == np.dtype(eff['valueFormat']))
        t.check('scale factor', float(v['attrs']['scale_factor']) == sf)
        t.check('offset', float(v['attrs']['add_offset']) == off)
        for k, a in (('validMin', 'valid_min'), ('validMax', 'valid_max')):
            t.check(f'{a} if asked for', (a in v['attrs']) == (eff[k] is not None))
            if eff[k] is not None:
                t.check(a, abs(float(v['attrs'][a]) * sf + off - float(eff[k])) <= abs(sf) / 2 + 1e-6)
        u = f['vars']['time']
        unit = {'h': 'hours', 'D': 'days', 'm': 'minutes'}[eff['outputStepUnits'] or 'h']
        t.check('unit of the times', u['attrs']['units'].startswith(unit + ' since'))


def folders(t, which):
    """Alternative folder of interpolation tables: where a new table is looked for and made"""
    with Scratch() as d:
        home = Home(d)
        make_map(d, 'clone', 'map', ())
        lat, lon, lats, lons = make_target(d, 'map')
        dirs = {k: f'{d}/{k}' for k in ('cli', 'json', 'user')}
        for x in dirs.values():
            os.makedirs(x, exist_ok=True)
        on_cli, in_json = t.flag('on the command line'), t.flag('in the JSON file')
        with open(d + '/home/p.conf', 'w') as f:
            f.write(f'INTERTABLES={d}/user\nGEOPOTENTIALS={d}/user\n')
        expected = dirs['cli'] if on_cli else dirs['json'] if in_json else dirs['user']
        slash = t.flag('slash at the end')
        ends = '/' if slash else ''
        vals = [t.real(f'v{j}', -50, 50) for j in range(3)]
        msgs = [message(arr(t, vals), (0, 0))]
        home.gribs({'a.grb': msgs})
        g, log = Grib({'a.grb': msgs}), []
        pick = t.choice('nearest', [0, 2])
        find = lambda gid, la, lo, *a, **k: [dict(index=pick, distance=0.5)]
        stubs = [(eccodes, 'codes_grib_find_nearest', find)] + ([(interp.gil, 'codes_grib_find_nearest', find)] if hasattr(interp, 'gil') else [])
        import pyg2p.main.interpolation.grib_interpolation_lib as gil_
        stubs.append((gil_, 'codes_grib_find_nearest', find))
        ic = {'@mode': 'grib_nearest', '@latMap': lat, '@lonMap': lon}
        if in_json:
            ic['@intertableDir'] = dirs['json'] + ends
        opts = ['-B'] + (['-N', dirs['cli'] + ends] if on_cli else [])
        with Patched(*home.stubs(), *g.stubs(), *RecWriter(log).stubs(), *stubs):
            c = controller.Controller(context.ExecutionContext(home.argv(*opts, interpolation=ic)))
            c.execute()
            c.close()
        t.cover('made')
        t.check('one field', len(log) == 1)
        for k, x in dirs.items():
            t.check('the table is in the folder in force', (len(files_under(x)) > 0) == (x == expected))
        for _, x in cells(log[0][0][1]):
            t.eq('interpolated', x, vals[pick])


MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')


def refused(t, part, through):
    """Invalid combinations are refused before anything is processed"""
    with Scratch() as d:
        home = Home(d)
        msgs = [message(arr(t, [1.0, 2.0]), (6 * i, 6 * i)) for i in range(3)]
        home.gribs({'a.grb': msgs})
        g, log, used = Grib({'a.grb': msgs}), [], []
        invalid, opts, param, out, ic = [], [], {}, {}, {}
        drop_i = commands = None
        if part == 'files':
            for f in ('a.grb', 'clone.map', 'lat.map', 'lon.map'):
                if not t.flag(f'{f} exists'):
                    os.unlink(f'{d}/{f}')
                    invalid.append(f)
            drop_i = t.flag('no input file given')
            if drop_i:
                invalid.append('no input')
            folder = t.choice('a folder instead of a file', [None, 'clone.map', 'a.grb'])
            if folder and os.path.exists(f'{d}/{folder}'):
                os.unlink(f'{d}/{folder}')
                os.mkdir(f'{d}/{folder}')
                invalid.append('folder')
        elif part == 'commands file':
            commands = t.choice('commands file', ['there', 'missing', 'not given']) if through == 'command' else 'there'
            if commands != 'there':
                invalid.append(commands)
        elif part == 'method':
            m = t.choice('method', MODES + ('', 'Nearest', 'nearest ', 'grib', None))
            if m is not None:
                ic['@mode'] = m
            if m is not None and m not in MODES:
                invalid.append('method')
        elif part == 'steps':
            s, e = (t.int(k, 0, 30) for k in ('start', 'end'))
            for k, v, o, j in (('start', s, '-s', '@tstart'), ('end', e, '-e', '@tend')):
                if t.flag(f'{k} in the JSON file'):
                    param[j] = f'{v}'
                else:
                    opts += [o, f'{v}']
            invalid.append(s > e)
        elif part == 'correction':
            have = {k: t.choice(k, [None, '', v]) for k, v in (('@correctionFormula', 'p+gem'), ('@gem', 'z'), ('@demMap', 'dem.map'))}
            param.update({k: v for k, v in have.items() if v is not None})
            exists = t.flag('elevation map exists')
            if not exists:
                os.unlink(d + '/dem.map')
            if have['@correctionFormula']:
                if not have['@gem'] or not have['@demMap']:
                    invalid.append('incomplete')
                elif not exists:
                    invalid.append('dem')
        elif part == 'level':
            lv = t.choice('level', [None, '', '0', '10', 0, 10, 'abc', '1.5', '-5', '1 0', '1e3'])
            if lv is not None:
                param['@level'] = lv
            if lv in ('abc', '1.5', '-5', '1 0', '1e3'):
                invalid.append('level')
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator(used).stubs(), *RecWriter(log).stubs()):
            error = None
            try:
                if through == 'command':
                    argv = home.argv(*opts, param=param, out=out, interpolation=ic)
                    if drop_i:
                        i = argv.index('-i')
                        del argv[i:i + 2]
                    if commands == 'missing':
                        os.unlink(d + '/commands.json')
                    if commands == 'not given':
                        i = argv.index('-c')
                        del argv[i:i + 2]
                    context.ExecutionContext(argv)
                else:
                    conf = api_conf(d, {}, 'clone.map', 'lat.map', 'lon.map', ic.get('@mode', 'nearest'))
                    if drop_i:
                        conf['inputFile'] = None
                    for o, k in (('-s', 'start'), ('-e', 'end')):
                        if o in opts:
                            conf[k] = sym_int(opts[opts.index(o) + 1])
                    conf['Parameter'].update({k[1:]: d + '/dem.map' if v == 'dem.map' else v for k, v in param.items()})
                    api.ApiContext(conf)
            except ApplicationException as e:
                error = e
        t.check('no message is read and nothing is interpolated or written', g.obtained == 0 and not used and not log and not g.open_indexes)
        bad = t_or(*[x if not isinstance(x, str) else True for x in invalid]) if invalid else False
        t.cover('refused' if error else 'accepted')
        if error:
            t.check('refused only if something is wrong', bad)
        else:
            t.check('accepted only if nothing is wrong', t_not(bad))


KINDS = ('text', 'number')
GROUPS = [('tstart', 'tend'), ('dataDate', 'dataTime'), ('perturbationNumber', 'tstart')]
PAIRS = [(('scaleFactor', 'offset'), dict(format='netcdf')), (('validMin', 'validMax'), dict(format='netcdf', scaleFactor='0.5')), (('valueFormat', 'outputStepUnits'), dict(format='netcdf')), (('namePrefix', 'format'), {})]
HARNESSES = [
    Harness('messages', messages, [dict(names=n, json_kind=k, through='command') for n in GROUPS for k in KINDS] + [dict(names=n, json_kind='number', through='api') for n in GROUPS[:2]],
            ['ExecutionContext._define_input_args/_define_exec_params/_check_exec_params', 'ApiContext._define_exec_params', 'Context.create_select_cmd_for_reader', 'GRIBReader', 'Controller.execute', 'argparse'],
            bounds='5 messages of different steps, dates, times and members; every presence pattern and value of -s -e -D -T -m and their JSON counterparts, two options at a time', stubs=['eccodes (in-memory)', 'Interpolator', 'writers'],
            covers=['used', 'refused'], exact_strings='tokens', builtins={'int': sym_int},
            thorough_params=[dict(names=n, json_kind=k, through=h) for n in GROUPS + [('tstart', 'tend', 'dataDate'), ('tstart', 'perturbationNumber', 'dataTime')] for k in KINDS for h in ('command', 'api') if h == 'command' or 'perturbationNumber' not in n]),
    Harness('map numbers', numbers, [dict(json_kind='text', big=99), dict(json_kind='number', big=12)], ['ExecutionContext', 'OutputWriter._name_pcr_map'], bounds='2 maps, every presence pattern and value up to 99 of -f -x @fmap @ext',
            stubs=['eccodes (in-memory)', 'Interpolator', 'writers'], covers=['written'], exact_strings='digits', builtins={'int': sym_int}, thorough_params=[dict(json_kind='text', big=99999), dict(json_kind='number', big=1200)]),
    Harness('output options', texts, [dict(names=n, extra=x) for n, x in PAIRS], ['ExecutionContext', 'OutputWriter', 'NetCDFWriter'], bounds='every presence pattern of eight options, three values each (defaults, zeros and others), two options at a time, quoted and unquoted',
            stubs=['eccodes (in-memory)', 'Interpolator.interpolate_scipy', 'netCDF4.Dataset and PCRasterWriter (symbolic runs only)'], covers=['netcdf', 'pcraster'], validate=10),
    Harness('folder of tables', folders, [dict(which='N')], ['ExecutionContext', 'Interpolator._read_intertable/_try...'], bounds='every presence pattern of -N, @intertableDir and user configuration', stubs=['eccodes (in-memory)', 'writers'], covers=['made']),
    Harness('refused', refused, [dict(part=p, through=h) for p in ('files', 'commands file', 'method', 'steps', 'correction', 'level') for h in ('command', 'api')], ['Context._check_exec_params', 'ExecutionContext', 'ApiContext'],
            bounds='every combination of missing files; 14 methods; any first and last step; every combination of correction settings; 11 levels', stubs=['eccodes (in-memory)', 'Interpolator', 'writers'],
            covers=['refused', 'accepted'], exact_strings='tokens', builtins={'int': sym_int}),
]
