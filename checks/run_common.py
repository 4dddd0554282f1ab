"""Whole-run harness: the real ExecutionContext, Controller, GRIBReader, OutputWriter and Pyg2pApi on an in-memory
GRIB library.  Messages are dictionaries of keys (possibly symbolic); map files are stand-ins; the interpolation and
the map writers are replaced where a property is not about them."""
import json
import os
import eccodes
import numpy as np
import numpy.ma as ma
import pyg2p
import pyg2p.main as main
import pyg2p.main.api as api
import pyg2p.main.config as cfg
import pyg2p.main.context as context
import pyg2p.main.controller as controller
import pyg2p.main.interpolation as interp
import pyg2p.main.readers.grib as rgrib
import pyg2p.main.writers as writers
import pyg2p.main.writers.netcdf as wnc
import pyg2p.main.writers.pcr as wpcr
from pyg2p.exceptions import ApplicationException
from engine.lib import Patched, arr, cells
from .interp_common import Scratch, files_under


class BadHandle(Exception):
    pass


class Grib:
    """The eccodes library on in-memory files: {file name: [message]}."""
    def __init__(self, files, indexable=True):
        self.files, self.indexable = files, indexable
        self.handles, self.live, self.obtained, self.released = {}, set(), 0, 0
        self.indexes, self.open_indexes, self.problems = {}, set(), []
        self.next = 1
        self.fail_at = None      # (function name, nth call) raising GribInternalError
        self.calls = {}

    def new(self, msg):
        gid = 1000 + self.next
        self.next += 1
        self.handles[gid] = msg
        self.live.add(gid)
        self.obtained += 1
        return gid

    def msg(self, gid):
        if gid not in self.live:
            self.problems.append('released or unknown message used')
            raise BadHandle('use of a message that is not open')
        return self.handles[gid]

    def index_new(self, path, keys):
        self.tick('codes_index_new_from_file')
        if not self.indexable:
            raise eccodes.EndOfFileError('no index')
        i = 1 + len(self.indexes)
        self.indexes[i] = dict(msgs=self.files[os.path.basename(path)], keys=list(keys), sel={}, it=0)
        self.open_indexes.add(i)
        return i

    def index_select(self, i, key, value):
        if i not in self.open_indexes:
            raise BadHandle('use of a released index')
        x = self.indexes[i]
        if key not in x['keys']:
            raise eccodes.KeyValueNotFoundError(key)
        x['sel'][key], x['it'] = value, 0

    def next_from_index(self, i):
        self.tick('codes_new_from_index')
        if i not in self.open_indexes:
            raise BadHandle('use of a released index')
        x = self.indexes[i]
        if set(x['sel']) != set(x['keys']):
            return None
        while x['it'] < len(x['msgs']):
            m = x['msgs'][x['it']]
            x['it'] += 1
            if all(k in m and bool(m[k] == v) for k, v in x['sel'].items()):
                return self.new(m)
        return None

    def next_from_file(self, f, *a, **k):
        self.tick('codes_new_from_file')
        c = f.read(1)
        return self.new(self.files[os.path.basename(f.name)][c[0]]) if c else None

    def release(self, gid):
        if gid not in self.live:
            self.problems.append('message released twice')
            raise BadHandle('message released twice')
        self.live.discard(gid)
        self.released += 1

    def index_release(self, i):
        if i not in self.open_indexes:
            self.problems.append('index released twice')
            raise BadHandle('index released twice')
        self.open_indexes.discard(i)

    def get(self, gid, key, ktype=None):
        self.tick('codes_get')
        m = self.msg(gid)
        if key not in m:
            raise eccodes.KeyValueNotFoundError(key)
        v = m[key]
        if ktype is str and not isinstance(v, str):
            return {('stepUnits', 1): 'h'}.get((key, v), str(v))
        if key == 'stepUnits' and ktype is None and isinstance(v, str):
            return 1
        return v.copy() if isinstance(v, np.ndarray) else v  # a new array each time, as eccodes

    def tick(self, name):
        n = self.calls[name] = self.calls.get(name, 0) + 1
        if self.fail_at is not None and bool(self.fail_at == (name, n)):
            raise eccodes.GribInternalError(f'{name} failed')

    def array(self, gid, key, *a, **k):
        return self.get(gid, key)

    def stubs(self):
        f = dict(codes_index_new_from_file=self.index_new, codes_index_select=self.index_select, codes_new_from_index=self.next_from_index,
                 codes_new_from_file=self.next_from_file, codes_grib_new_from_file=self.next_from_file, codes_release=self.release, codes_index_release=self.index_release,
                 codes_is_defined=lambda g, k: int(k in self.msg(g)), codes_is_missing=lambda g, k: int(k in self.msg(g).get('_missing', ())),
                 codes_get=self.get, codes_get_array=self.array, codes_get_double_array=self.array, codes_get_values=lambda g: self.get(g, 'values'),
                 codes_get_double=self.get, codes_get_long=self.get, codes_get_string=self.get)
        out = [(eccodes, k, v) for k, v in f.items()]
        for mod in (rgrib, pyg2p, interp.gil if hasattr(interp, 'gil') else rgrib):
            out += [(mod, k, v) for k, v in f.items() if k in vars(mod)]
        return out


def message(values, step=(0, 6), **keys):
    m = dict(shortName='tp', level=0, levelType='sfc', dataDate=20200101, dataTime=0, startStep=step[0], endStep=step[1], units='kg m**-2', stepType='instant',
             stepUnits='h', missingValue=9999.0, bitmapPresent=0, values=values, gridType='regular_ll', radius=6371229.0, numberOfValues=len(values), Ni=len(values), Nj=1,
             longitudeOfFirstGridPointInDegrees=0.0, longitudeOfLastGridPointInDegrees=float(len(values) - 1))
    m['latitudes'], m['longitudes'] = np.full(len(values), 50.0), np.arange(float(len(values)))
    m.update(keys)
    return m


BASE = {'Execution': {'@name': 'run', 'Parameter': {'@shortName': 'tp'},
                      'OutMaps': {'@cloneMap': 'clone.map', 'Interpolation': {'@latMap': 'lat.map', '@lonMap': 'lon.map', '@mode': 'nearest'}}}}
GLOBALS = {'parameters.json': {'tp': {'@shortName': 'tp', '@description': 'rain', '@unit': 'mm', 'Conversion': [{'@id': 'neg', '@unit': 'u', '@function': 'x=x-(1)', '@cutOffNegative': 'True'}]}}}


class RecInterpolator:
    """Stands for the interpolation: the field as it is, with a note of what it was interpolated with."""
    def __init__(self, log, result=None):
        self.log, self.result = log, result

    def stubs(s):
        def init(self, ctx, mv_input=None):
            pass

        def interpolate(self, lats, longs, v, grid_id, geodetic_info, **k):
            s.log.append(dict(lats=lats, longs=longs, v=v, grid_id=grid_id, geo=geodetic_info, second=k.get('is_second_res', False)))
            return v if s.result is None else s.result(v)
        return [(interp.Interpolator, 'mv_output', -9999.0), (interp.Interpolator, '__init__', init), (interp.Interpolator, 'interpolate', interpolate),
                (interp.Interpolator, 'aux_for_intertable_generation', lambda self, *a: s.log.append(dict(aux=a)))]


class RecWriter:
    def __init__(self, log):
        self.log, self.opened, self.closed = log, 0, 0

    def stubs(s):
        def init(self, *a):
            s.opened += 1
            self._clone_map = a[0]

        def write(self, *a, **k):
            s.log.append((a, k))

        def close(self):
            s.closed += 1
        out = []
        for c in (wpcr.PCRasterWriter, wnc.NetCDFWriter):
            out += [(c, '__init__', init), (c, 'write', write), (c, 'close', close)]
        return out + [(wnc.NetCDFWriter, 'init_dataset', lambda self, name, *a, **k: s.log.append(('init', name)))]


class Home:
    """Scratch home, global configuration and stand-in map files."""
    def __init__(self, d, params=None, geopotentials=None):
        self.d = d
        os.mkdir(d + '/home')
        with open(d + '/home/p.conf', 'w') as f:
            f.write(f'INTERTABLES={d}/user\nGEOPOTENTIALS={d}/user\n')
        for n in ('clone.map', 'lat.map', 'lon.map', 'dem.map'):
            with open(d + '/' + n, 'w') as f:
                f.write('x')
        self.glob = dict(GLOBALS, **{'geopotentials.json': geopotentials or {}})

    def stubs(self):
        d, glob = self.d, self.glob

        class G:
            vars = {'intertables': d + '/global', 'geopotentials': d + '/global'}
        return [(cfg.UserConfiguration, 'config_dir', d + '/home/'), (cfg.GlobalConf, 'instance', G),
                (cfg.BaseConfiguration, 'load_global', lambda s: json.loads(json.dumps(glob.get(s.config_file_, {}))))]

    def gribs(self, files):
        for name, msgs in files.items():
            with open(self.d + '/' + name, 'wb') as f:
                f.write(bytes(range(len(msgs))))

    def commands(self, param=None, out=None, interpolation=None, aggregation=None):
        u = json.loads(json.dumps(BASE))
        e = u['Execution']
        e['Parameter'].update(param or {})
        e['OutMaps'].update(out or {})
        e['OutMaps']['Interpolation'].update(interpolation or {})
        for o, k in ((e['OutMaps'], '@cloneMap'), (e['OutMaps']['Interpolation'], '@latMap'), (e['OutMaps']['Interpolation'], '@lonMap')):
            o[k] = self.d + '/' + o[k]
        if e['Parameter'].get('@demMap'):
            e['Parameter']['@demMap'] = self.d + '/' + e['Parameter']['@demMap']
        if aggregation:
            e['Aggregation'] = aggregation
        with open(self.d + '/commands.json', 'w') as f:
            json.dump(u, f)
        return self.d + '/commands.json'

    def argv(self, *extra, **kw):
        return ['-c', self.commands(**kw), '-i', self.d + '/a.grb', '-l', 'ERROR', '-o', self.d + '/out'] + [str(x) for x in extra]
