"""C25: whatever the point at which a run, a configuration command or a download stops, the next run works as if it had not."""
import builtins
import errno
import io
import _io
import json
import os
import shutil
import sys
import pyg2p.main as main
import pyg2p.main.config as cfg
from engine.runner import Harness
from .interp_common import *
from .c07_interp_missing import src_values
from .c08_tables import Setup, same_cells
from .c18_configuration import At, World, PARAMS
from .c19_failures import FaultyGrib, Faults, Log, exit_code
from .run_common import message

ASSUMPTIONS = ['a program that is killed leaves what it handed to the operating system (no power failure); a rename is atomic', 'one process writes at a time',
               'files are opened with open() or a library that uses it, in a scratch folder', 'neighbour searches, eccodes and FTP are stand-ins']


class Kill(BaseException):
    """the program is killed: nothing it does from now on has an effect"""


OPS = ('replace', 'rename', 'renames', 'remove', 'unlink', 'mkdir', 'rmdir', 'link', 'symlink', 'truncate', 'chmod', 'utime')


class Crash:
    """File operation number `at` is the last one: kill (nothing, or half of a write, is done) or a full disk (no write succeeds any more)"""
    def __init__(self, d, at=None, kind='kill', half=False):
        self.d, self.at, self.kind, self.half = os.path.realpath(d), at, kind, half
        self.n, self.dead, self.full, self.where = 0, False, False, None

    def now(self, label):
        self.n += 1
        if self.at is not None and self.where is None and bool(self.at == self.n):
            self.where = label
            return True
        return False

    def mine(self, path):
        return isinstance(path, (str, os.PathLike)) and os.path.realpath(os.fspath(path)).startswith(self.d + os.sep)

    def stop(self):
        self.dead = True
        raise Kill()

    def stubs(s):
        real_open = _io.open

        class Raw(io.RawIOBase):
            def __init__(self, path, mode):
                self.f, self.name, self.mode = io.FileIO(path, mode), path, mode

            def readable(self):
                return self.f.readable()

            def writable(self):
                return True

            def seekable(self):
                return True

            def seek(self, *a):
                return self.f.seek(*a)

            def tell(self):
                return self.f.tell()

            def readinto(self, b):
                return self.f.readinto(b)

            def truncate(self, *a):
                return len(a) if s.dead else self.f.truncate(*a)

            def write(self, b):
                b = bytes(b)
                if s.dead:
                    return len(b)
                if not s.full and s.now('write'):
                    if s.half and len(b) > 1:
                        n = self.f.write(b[:len(b) // 2])
                        if s.kind == 'full':
                            s.full = True
                            return n
                    if s.kind == 'kill':
                        s.stop()
                    s.full = True
                if s.full:
                    raise OSError(errno.ENOSPC, 'No space left on device')
                return self.f.write(b)

            def close(self):
                if not self.closed:
                    super().close()
                    self.f.close()

        def opened(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not s.mine(file) or not set(mode) & set('wax+'):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if s.dead:
                raise Kill()
            if s.kind == 'kill' and s.now('open'):
                s.stop()
            raw = Raw(os.fspath(file), mode.replace('b', '').replace('t', ''))
            if buffering == 0:
                return raw
            b = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
            return b if 'b' in mode else io.TextIOWrapper(b, encoding, errors, newline, line_buffering=buffering == 1)

        def op(name, f):
            def call(*a, **k):
                if any(s.mine(x) for x in a):
                    if s.dead:
                        raise Kill()
                    if s.kind == 'kill' and s.now(name):
                        s.stop()
                return f(*a, **k)
            return call
        return [(builtins, 'open', opened), (io, 'open', opened), (_io, 'open', opened)] + [(os, n, op(n, getattr(os, n))) for n in OPS]


def stopped(crash, go):
    """The run with the crash; True when it came to its end"""
    hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
    try:
        with Patched(*crash.stubs()):
            try:
                go()
                return not crash.dead
            except (Kill, Exception) as e:
                if crash.where is None:
                    raise
                return False
    finally:
        sys.unraisablehook = hook


def registry(d):
    with open(d + '/home/intertables.json') as f:
        return json.load(f)


def tables(t, mode, entry, kind, deep=False):
    env = Setup(t, mode, seedcase=0 if deep else 1)
    v = src_values(t, env.n, 'a')[0] if deep else arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(env.n)])
    agg = t.flag('aggregated') if mode.startswith('grib') and entry != 'other' else False
    at, half = t.int('last file operation', 0, 60), t.flag('half of the last write is done')
    ask = t.flag('the next run creates tables')
    iid = f"Igrid_tgt{interp.Interpolator.suffixes[mode]}"
    other = {'filename': 'other.npy.gz', 'method': mode}
    with Scratch() as d:
        it = env.interpolator(d, real_conf(d), True)
        exp = env.run(it, v, agg)
    with Scratch() as d:
        os.mkdir(d + '/home')
        with open(d + '/home/paths.conf', 'w') as f:
            f.write(f'INTERTABLES={d}/user\n')
        if entry != 'first start':
            conf = real_conf(d)
            conf.user_vars['Iother'] = conf.vars['Iother'] = other
            if entry == 'file missing':
                conf.user_vars[iid] = conf.vars[iid] = {'filename': 'mytable.npy.gz', 'method': mode}
            conf.dump()
        crash = Crash(d, at, kind, half)
        done = stopped(crash, lambda: env.run(env.interpolator(d, real_conf(d), True), v, agg))
        t.cover('stopped' if crash.where else 'not stopped')
        for i, create in enumerate((ask, True, False)):
            interp.Interpolator._LOADED_INTERTABLES.clear()
            try:
                out = env.run(env.interpolator(d, real_conf(d), create), v, agg)
            except interp.ApplicationException as e:
                t.check('without a table the run is refused', i == 0 and not create and not done and e.code == interp.NO_INTERTABLE_CREATED)
                t.cover('no table')
                continue
            same_cells(t, ('next run', 'run that creates tables', 'last run')[i], exp, out)
            if i == 0:
                t.cover('same results')
        reg = registry(d)
        t.check('other tables are still registered', entry == 'first start' or reg.get('Iother') == other)
        t.check('the table is registered', iid in reg)
        path = d + '/user/' + reg[iid]['filename']
        t.check('the registered table exists', any(os.path.exists(p) for p in (path, path + '.gz')))


def content(folder):
    out = {}
    for n in os.listdir(folder):
        with open(os.path.join(folder, n), 'rb') as f:
            out[n] = f.read()
    return out


REMOTE = {'x.npy.gz': b'1' * 30, 'y.npy.gz': b'2' * 20000}
JSONS = ('parameters.json', 'geopotentials.json', 'intertables.json', 'ftp.json')


def commands(t, command, kind, first):
    """Configuration commands and downloads"""
    with Scratch() as d:
        other = {'Iother': {'filename': 'other.npy.gz', 'method': 'nearest'}, 'Igone': {'filename': 'gone.npy.gz', 'method': 'nearest'}}
        user = {'ftp.json': {'host': 'h', 'user': 'u', 'pwd': 'p', 'folder': 'f'}}
        if not first:
            user.update({'intertables.json': other, 'geopotentials.json': {'an$other$grid': 'other.grb', 'one$more$grid': 'more.grb'}, 'parameters.json': {'abc': {'@shortName': 'abc', '@unit': 'u'}}})
        w = World(t, d, {'p.conf': [f'INTERTABLES={d}/user', f'GEOPOTENTIALS={d}/geo']}, dict(PARAMS, **{'geopotentials.json': {}, 'intertables.json': {}}), user)
        os.makedirs(d + '/geo')
        os.makedirs(d + '/given')
        for p, b in ((d + '/given/geo.grb', bytes([0]) + b'z' * 20000), (d + '/user/other.npy.gz', b'table'), (d + '/geo/other.grb', b'other'), (d + '/geo/more.grb', b'more')):
            with open(p, 'wb') as f:
                f.write(b)
        ask = command == '-W' and t.choice('dataset', ['geopotentials', 'intertables'])
        folder = d + ('/geo' if ask == 'geopotentials' else '/user')
        blocks = t.choice('blocks', [1, 2]) if command == '-W' else 1

        class FTP:
            def __init__(self, *a, **k):
                pass

            def cwd(self, p):
                pass

            def nlst(self, *a):
                return ['.', '..', 'readme.txt'] + sorted(REMOTE)

            def retrbinary(self, cmd, callback, *a, **k):
                x = REMOTE[cmd.split()[1]]
                for i in range(blocks):
                    callback(x[len(x) * i // blocks:len(x) * (i + 1) // blocks])

            def quit(self):
                pass
            close = quit

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        argv = {'-g': ['-g', d + '/given/geo.grb'], '-W': ['-W', ask], '-K': ['-K'], '-r': ['-g', d + '/given/geo.grb']}[command]
        crash = Crash(d, t.int('last file operation', 0, 60), kind, t.flag('half of the last write is done'))
        g = FaultyGrib({'geo.grb': [message(np.arange(4.0), (0, 0), shortName='z', Ni=2, Nj=2)]}, Faults())
        before = {n: json.loads(b) for n, b in content(d + '/home').items() if n in JSONS}
        go = lambda: main.pyg2p_exe(argv)
        if command == '-r':
            go = lambda: cfg.Configuration().remove_geopotential('other.grb')

        def again(go):
            cfg.GlobalConf.instance = None
            return exit_code(go)
        with At(d), Patched(*w.stubs(), *g.stubs(), (cfg, 'FTP', FTP)), Log() as log:
            cfg.GlobalConf.instance = None
            done = stopped(crash, go)
            t.cover('stopped' if crash.where else 'not stopped')
            new = {n: json.loads(b) for n, b in content(d + '/home').items() if n in JSONS}
            for n, b in before.items():
                changed = {'-g': ('geopotentials.json',), '-r': ('geopotentials.json',), '-K': ('intertables.json',), '-W': ()}[command]
                t.check('files that the command does not change are as they were', n in changed or new[n] == b)
                t.check('what the command does not touch is kept', all(new[n].get(k) == v for k, v in b.items() if not (command, k) in (('-K', 'Igone'), ('-r', 'an$other$grid'))))
            # any other use of the configuration
            cfg.GlobalConf.instance = None
            conf = cfg.Configuration()
            for gid, name in conf.geopotentials.vars.items():
                if name == 'geo.grb':
                    with open(conf.geopotentials.get_filepath(gid), 'rb') as f:
                        t.check('a registered geopotential is complete', f.read() == bytes([0]) + b'z' * 20000)
            had = 'geo.grb' in conf.geopotentials.vars.values()
            rc, err = again(go)
            t.check('the command works afterwards', err is None and (rc == 0 or (command == '-g' and had)))
            cfg.GlobalConf.instance = None
            conf = cfg.Configuration()
            reg = conf.geopotentials.vars
            if command == '-g':
                t.check('the geopotential is registered', sorted(v for k, v in reg.items() if k != 'description') == (['geo.grb'] if first else ['geo.grb', 'more.grb', 'other.grb']))
                t.check('the geopotential is complete', content(d + '/geo').get('geo.grb') == bytes([0]) + b'z' * 20000)
            if command == '-r':
                t.check('the geopotential is removed', 'an$other$grid' not in reg and (first or reg['one$more$grid'] == 'more.grb'))
            if command == '-W':
                got = content(folder)
                t.check('all files are complete', all(got.get(k) == v for k, v in REMOTE.items()))
            if command == '-K' and not first:
                t.check('the registry has the tables that exist', 'Iother' in conf.intertables.user_vars and 'Igone' not in conf.intertables.user_vars)


MODES = ['nearest', 'invdist', 'bilinear', 'grib_nearest', 'grib_invdist']
ALL = MODES + ['adw', 'cdd', 'triangulation', 'bilinear_delaunay']


def table_params(modes, deep=False):
    return [dict(mode=m, entry=e, kind=k, deep=deep) for m in modes for e in ('first start', 'other', 'file missing') for k in ('kill', 'full')]


CMDS = [dict(command=c, kind=k, first=f) for c in ('-g', '-W', '-K', '-r') for k in ('kill', 'full') for f in (False, True) if not (c == '-r' and f)]
HARNESSES = [
    Harness('tables', tables, table_params(MODES), thorough_params=table_params(ALL, True), functions=['Interpolator', 'IntertablesConfiguration', 'BaseConfiguration.dump', 'util.files'],
            bounds='a run that makes a table of up to 25 source and 4 target cells; any of its file operations can be the last, or its last write be done by half; 3 later runs',
            covers=('stopped', 'not stopped', 'same results'), stubs=['KDTree', 'eccodes.codes_grib_find_nearest', 'file operations (they go to real files of a scratch folder)'], tol=1e-11),
    Harness('commands', commands, CMDS, functions=['pyg2p_exe', 'Configuration', 'BaseConfiguration', 'GeopotentialsConfiguration.add/remove', 'Configuration.download_data', 'Configuration.check_conf'],
            bounds='one geopotential file, 2 remote files of 1 or 2 blocks, 4 JSON files; any file operation can be the last', covers=('stopped', 'not stopped'), stubs=['eccodes', 'FTP', 'file operations'])]
