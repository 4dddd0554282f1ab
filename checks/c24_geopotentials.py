"""C24: geopotentials are registered once, under their grid, and found in the documented order."""
import pyg2p.util.files as futil
from engine.runner import Harness
from engine.text import SymDict, json_symbolic, same_text, text, wrap
from .run_common import *
from .c18_configuration import At, World, PARAMS

ASSUMPTIONS = ['eccodes is an in-memory stand-in; grid types are arbitrary texts of two characters, so that any two grid ids can be equal or different', 'files of geopotential folders are not removed by others']


class FileGrib(Grib):
    """GRIB files identified by their content, so that copies hold the same messages"""
    def __init__(self, contents):
        super().__init__({})
        self.contents = contents

    def index_new(self, path, keys):
        with open(path, 'rb') as f:
            self.files[os.path.basename(path)] = self.contents[f.read()]
        return super().index_new(path, keys)


def geopotential(t, kind, name='z'):
    return message(np.arange(4.0), (0, 0), shortName=name, gridType=kind, Ni=2, Nj=2)


def id_of(kind):
    return f'0$3$2$2$4${str.__str__(kind)}'


class Registry:
    """What the registry should be: ids and names of global and user entries"""
    def __init__(self, glob, user):
        self.glob, self.user = list(glob), list(user)

    def find(self, id_):
        for k, n in self.user + self.glob:
            if bool(same_text(k, id_)):
                return n
        return None

    def names(self):
        # the entry of the user hides a global one of the same grid
        return {n for k, n in self.user + self.glob if self.find(k) == n}


def folder(path):
    out = {}
    for f in sorted(os.listdir(path)):
        with open(path + '/' + f, 'rb') as h:
            out[f] = h.read()
    return out


def entries(path):
    with open(path) as f:
        return {k: v for k, v in json.load(f).items() if k != 'description'}


def same_entries(a, pairs):
    if len(a) != len(pairs):
        return False
    ok = True
    for k, n in pairs:
        found = next((x for x in a if bool(same_text(x, k))), None)
        ok = ok and found is not None and a[found] == n
    return ok


def history(t, ops, has_user, through):
    """Any short history of additions, removals and look-ups"""
    with Scratch() as d:
        kinds = {n: text(t, f'grid of {n}', 2, 97, 122) for n in ('global', 'a', 'b', 'a2')}
        if has_user:
            kinds['user'] = text(t, 'grid of user', 2, 97, 122)
        os.mkdir(d + '/src')
        os.mkdir(d + '/src2')
        src = {'a': d + '/src/a.grb', 'b': d + '/src/b.grb', 'a2': d + '/src2/a.grb', 'none': d + '/src/none.grb', 'absent': d + '/src/absent.grb'}
        contents = {}
        for i, n in enumerate(('a', 'b', 'a2', 'none')):
            c = bytes([10 + i])
            contents[c] = [message(np.arange(4.0), (0, 0), Ni=2, Nj=2)] + ([] if n == 'none' else [geopotential(t, kinds[n], ('z', 'fis', 'orog', 'FIS')[i])])
            with open(src[n], 'wb') as f:
                f.write(c)
        where = dict(a=b'\n', b=b'\x0b', a2=b'\x0c')
        for n, path, c in (('global', d + '/global/gl.grb', b'G'), ('user', d + '/user/us.grb', b'U')):
            if n in kinds:
                with open(path, 'wb') as f:
                    f.write(c)
        reg = Registry([(id_of(kinds['global']), 'gl.grb')], [(id_of(kinds['user']), 'us.grb')] if has_user else [])
        w = World(t, d, {'p.conf': [f'GEOPOTENTIALS={d}/user', f'INTERTABLES={d}/user']}, dict(PARAMS, **{'geopotentials.json': dict(reg.glob)}), {'geopotentials.json': dict(reg.user)})
        g = FileGrib(contents)
        extra = [(cfg, 'json', json_symbolic())] if t.symbolic else []
        content = dict(gl=b'G', us=b'U')    # of the registered names
        registered = {'gl.grb': b'G', 'us.grb': b'U'}
        with At(d), Patched(*w.stubs(), *g.stubs(), *extra):
            before_global = w.globals_(), folder(d + '/global')
            conf = cfg.Configuration()
            for op in ops:
                what, arg = op
                before = folder(d + '/user'), reg.user[:]
                if what == 'reload':
                    conf = cfg.Configuration()
                elif what == 'remove':
                    conf.remove_geopotential(arg)
                    for e in reg.user:
                        if e[1] == arg:
                            reg.user.remove(e)
                            break
                    t.check('removing changes the registration only', folder(d + '/user') == before[0])
                elif what == 'add':
                    name = os.path.basename(src[arg])
                    id_ = id_of(kinds[arg]) if arg in kinds else None
                    ok = arg in kinds and reg.find(id_) is None and name not in reg.names()
                    if through == 'command':
                        rc = main.pyg2p_exe(['-g', src[arg], '-l', 'ERROR'])
                        done = rc == 0
                        t.check('exit code', rc in (0, 1))
                        conf = cfg.Configuration()
                    else:
                        try:
                            conf.add_geopotential(src[arg])
                            done = True
                        except (ApplicationException, OSError, *([] if arg != 'absent' else [Exception])):
                            done = False
                    if ok:
                        t.cover('added')
                        t.check('a new geopotential is added', done)
                        reg.user.append((id_, name))
                        registered[name] = where[arg]
                        t.check('the file is copied to the user folder', folder(d + '/user') == dict(before[0], **{name: where[arg]}))
                    else:
                        t.cover('refused')
                        t.check('a geopotential already registered, or no geopotential, is refused', not done)
                        t.check('nothing changes', folder(d + '/user') == before[0])
                t.check('user registrations', same_entries(entries(d + '/home/geopotentials.json'), reg.user))
                t.check('global files unchanged', (w.globals_(), folder(d + '/global')) == before_global)
                t.check('messages released and files closed', not g.live and not g.open_indexes and not g.problems)
                for n, kind in kinds.items():
                    id_ = id_of(kind)
                    name = reg.find(id_)
                    try:
                        path = conf.geopotentials.get_filepath(id_)
                    except ApplicationException as e:
                        t.check('a registered geopotential is found', name is None)
                        continue
                    t.check('a geopotential that is not registered is not found', name is not None)
                    if name is not None:
                        t.check('the registered file is found', os.path.basename(path) == name)
                        with open(path, 'rb') as f:
                            t.check('it is the file of the grid', f.read() == registered[name])


def order(t, through, option, registered, user_dir):
    """Folders are searched in the documented order"""
    with Scratch() as d:
        os.mkdir(d + '/more')
        os.mkdir(d + '/json')
        kind = text(t, 'grid', 2, 97, 122)
        other = text(t, 'other grid', 2, 97, 122)
        for n in ('global', 'user', 'more', 'json'):
            if t.flag(f'file in {n}'):
                with open(f'{d}/{n}/g.grb', 'wb') as f:
                    f.write(b'x')
            if t.flag(f'other file in {n}') if n == 'user' else False:
                with open(f'{d}/{n}/o.grb', 'wb') as f:
                    f.write(b'x')
        regs = {'global': {}, 'user': {}}
        regs[registered][id_of(kind)] = 'g.grb'
        if registered == 'user':
            # an entry of the same grid in the global file is hidden
            regs['global'][id_of(kind)] = 'o.grb'
        w = World(t, d, {'p.conf': [f'GEOPOTENTIALS={d}/user'] if user_dir else []}, dict(PARAMS, **{'geopotentials.json': regs['global']}), {'geopotentials.json': regs['user']})
        g = FileGrib({bytes([0]): [message(np.arange(4.0), (0, 6), Ni=2, Nj=2)]})
        extra = [(cfg, 'json', json_symbolic())] if t.symbolic else []
        with At(d), Patched(*w.stubs(), *g.stubs(), *extra):
            if through == 'command':
                u = json.loads(json.dumps(BASE))
                e = u['Execution']
                e['Parameter'].update({'@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': '/m/dem.map'})
                if option in ('json', 'both'):
                    e['OutMaps']['Interpolation']['@geopotentialDir'] = d + '/json'
                with open(d + '/commands.json', 'w') as f:
                    json.dump(u, f)
                ctx = context.ExecutionContext(['-c', d + '/commands.json', '-i', d + '/a.grb', '-l', 'ERROR', '-o', d + '/out'] + (['-G', d + '/more'] if option in ('G', 'both') else []))
            else:
                conf = dict(loggerLevel='ERROR', inputFile=d + '/a.grb', start=None, end=None, perturbationNumber=None, fmap=1, ext=1,
                            OutMaps=dict(cloneMap='/m/clone.map', unitTime='6', Interpolation=dict(latMap='/m/lat.map', lonMap='/m/lon.map', mode='nearest')), Parameter=dict(shortName='tp', correctionFormula='p+gem+dem', gem='z', demMap='/m/dem.map'))
                if option:
                    conf['geopotentialDir'] = d + '/more'
                ctx = api.ApiContext(conf)
            first = {None: [], 'G': ['more'], 'both': ['more'], 'json': ['json']}[option]
            folders = first + (['user'] if user_dir else []) + ['global']
            expected = next((f'{d}/{n}/g.grb' for n in folders if os.path.exists(f'{d}/{n}/g.grb')), None)
            ctx.input_file_with_geopotential = None
            for id_ in (id_of(kind), id_of(other)):
                known = bool(same_text(id_, id_of(kind)))
                try:
                    path = ctx.geo_file(id_)
                except ApplicationException:
                    t.cover('not found')
                    t.check('found if it is registered and in one of the folders', not known or expected is None)
                    continue
                t.cover('found')
                t.check('not found if it is not registered or in no folder', known and expected is not None)
                t.check('first folder which has it', os.path.normpath(path) == expected)
            ctx.input_file_with_geopotential = d + '/a.grb'
            t.check('the geopotential of the input file comes first', ctx.geo_file(id_of(kind)) == d + '/a.grb')


A = [('add', x) for x in ('a', 'b', 'a2')]
R = [('remove', x) for x in ('a.grb', 'us.grb', 'gl.grb')]
HIST = [(A[0], A[1], A[2]), (A[0], A[0]), (A[0], R[0], A[2]), (A[0], ('reload', 0), A[1]), (R[1], A[0]), (R[2], A[0]), (('add', 'none'), ('add', 'absent'), A[1]), (A[1], R[0], R[1], ('reload', 0)), (A[0], R[0], ('reload', 0), A[0]), (R[1], ('reload', 0), A[2])]
import itertools
LONG = [h for n in (2, 3) for h in itertools.product(A + R + [('reload', 0)], repeat=n) if any(o[0] == 'add' for o in h)]
HARNESSES = [
    Harness('history', history, [dict(ops=h, has_user=u, through=('command', 'api')[(i + u) % 2]) for i, h in enumerate(HIST) for u in (True, False)], ['GeopotentialsConfiguration.add/remove/get_filepath', 'Configuration.add_geopotential/remove_geopotential', 'config_command', 'GRIBReader.get_id', 'GribGridDetails'],
            bounds='histories of up to 4 additions, removals and reloads over 3 files (two of the same name), one global and one user registration; any equalities between the grids', stubs=['eccodes (in-memory)', 'json (objects with symbolic keys, symbolic runs only)'], covers=['added', 'refused'],
            thorough_params=[dict(ops=h, has_user=u, through=x) for h in HIST + LONG for u in (True, False) for x in ('command', 'api')]),
    Harness('order', order, [dict(through=h, option=o, registered=r, user_dir=u) for h in ('command', 'api') for o in ((None, 'G', 'json', 'both') if h == 'command' else (None, 'G')) for r in ('global', 'user') for u in (True, False)],
            ['Context.geo_file', 'GeopotentialsConfiguration.get_filepath', 'ExecutionContext', 'ApiContext'], bounds='any presence of the file in the folder of the command line, of the commands file, of the user and the global one; registered or not', stubs=['eccodes (in-memory)', 'existence of map files', 'json (symbolic runs only)'], covers=['found', 'not found']),
]
