"""Interpolation harness: the real Interpolator / ScipyInterpolation on a stubbed nearest-neighbour search.

The k-d tree is the environment: for every target cell it reports arbitrary (symbolic) increasing distances and the
indexes of the neighbours.  Files are real files in a scratch directory.
"""
import os
import shutil
import tempfile
import numpy as np
import numpy.ma as ma
import pyg2p.main.interpolation as interp
import pyg2p.main.interpolation.scipy_interpolation_lib as sil
import pyg2p.main.interpolation.grib_interpolation_lib as gil
from engine.lib import arr, cells, Patched

MV = -9999.0


class Target:
    def __init__(self, lats, lons, mv=MV, ident='tgt'):
        self.lats, self.lons, self.mv, self.identifier = np.array(lats, dtype=float), np.array(lons, dtype=float), mv, ident


class Config:
    """In-memory intertables configuration."""
    def __init__(self):
        self.vars, self.user_vars, self.dumped, self.checked = {}, {}, 0, 0

    def check_write(self):
        self.checked += 1

    def dump(self):
        self.dumped += 1


class Ctx:
    def __init__(self, d, mode, conf):
        self.v = {'interpolation.mode': mode, 'input.file': '/data/source.grb', 'interpolation.dirs': {'user': d + '/user', 'global': d + '/global'},
                  'interpolation.create': True, 'interpolation.parallel': False, 'interpolation.latMap': 'lat', 'interpolation.lonMap': 'lon',
                  'interpolation.rotated_target': False, 'interpolation.use_broadcasting': False, 'interpolation.num_of_splits': None}
        self.is_with_grib_interpolation = mode.startswith('grib')

        class C:
            intertables = conf
        self.configuration = C

    def get(self, k, default=None):
        return self.v.get(k, default)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='it-')
        os.mkdir(self.d + '/user')
        os.mkdir(self.d + '/global')
        interp.Interpolator._LOADED_INTERTABLES.clear()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        interp.Interpolator._LOADED_INTERTABLES.clear()


class World:
    """The neighbour search results, by target location."""
    def __init__(self, t, nsource, kmax, free=None, fixed_index=False, dmax=1e6, orders=None, groups=None, name=''):
        self.t, self.n, self.kmax, self.free, self.dmax = t, nsource, kmax, free, dmax
        self.rows, self.name = {}, name
        self.orders, self.groups = orders, groups
        self.res = t.real(name + 'source spacing', 1, 1e5)

    def row(self, pt):
        key = tuple(round(float(x), 4) for x in pt)
        if key not in self.rows:
            i = len(self.rows)
            t = self.t
            ds = []
            if self.free is None or i in self.free:
                prev = 0
                for k in range(self.kmax):
                    if self.groups is None or not k or self.groups[k] != self.groups[k - 1]:
                        d = t.real(f'{self.name}d{i}_{k}', 0, self.dmax)
                        t.assume(d > prev if self.groups is not None and k else d >= prev)
                        prev = d
                    ds.append(prev)
                if self.kmax > 1:
                    t.assume(ds[-1] > 0)   # the sources are distinct points
            else:
                ds = [100.0 * (i + 1) * (k + 1) for k in range(self.kmax)]
            if self.orders is None:
                idx = [(i + j) % self.n for j in range(self.kmax)]
            else:
                idx = list(t.choice(f'{self.name}neighbours{i}', self.orders)) if self.free is None or i in self.free else list(self.orders[i % len(self.orders)])
            self.rows[key] = (ds, idx)
        return self.rows[key]

    def tree(world):
        class KDTree:
            def __init__(self, data, *a, **k):
                self.data = np.asarray(data)
                self.n = len(self.data)

            def query(self, x, k=1, workers=1, **kw):
                x = np.asarray(x)
                if x.shape == self.data.shape and k == 2 and np.array_equal(x, self.data):
                    d = arr(world.t, [v for _ in range(self.n) for v in (0.0, world.res)], shape=(self.n, 2))
                    return d, np.array([[i, (i + 1) % self.n] for i in range(self.n)])
                one = x.ndim == 1
                rows = [world.row(p) for p in x.reshape(-1, 3)]
                ds = arr(world.t, [v for r in rows for v in r[0][:k]], shape=(len(rows), k))
                ix = np.array([r[1][:k] for r in rows])
                if k == 1:
                    ds, ix = ds[:, 0], ix[:, 0]
                return (ds[0], ix[0]) if one else (ds, ix)
        return KDTree


GEO = {'gridType': 'regular_ll', 'radius': 6371229.0, 'Nj': 8, 'latitudeOfSouthernPoleInDegrees': -40.0, 'longitudeOfSouthernPoleInDegrees': 10.0}


def grid(nrow, ncol, lat0=50.0, lon0=10.0, step=0.5):
    lats = [[lat0 - step * r for _ in range(ncol)] for r in range(nrow)]
    lons = [[lon0 + step * c for c in range(ncol)] for r in range(nrow)]
    return lats, lons


def interpolator(d, mode, target, conf, **opts):
    ctx = Ctx(d, mode, conf)
    ctx.v.update(opts)
    with Patched((interp, 'LatLong', lambda *a: target)):
        return interp.Interpolator(ctx, MV)


def table_of(conf, d):
    """The saved interpolation table(s) of a run, read back the way the program's file format defines."""
    import gzip
    out = []
    for name in sorted(os.listdir(d + '/user')):
        out.append(name)
    return out


def last_table():
    tabs = list(interp.Interpolator._LOADED_INTERTABLES.values())
    return tabs[-1] if tabs else None


def real_conf(d):
    """The real intertables configuration, read from the user's files under d (what a new process does)."""
    import pyg2p.main.config as cfg
    home = d + '/home/'
    if not os.path.isdir(home):
        os.mkdir(home)
        with open(home + 'paths.conf', 'w') as f:
            f.write(f'INTERTABLES={d}/user\n')

    class G:
        vars = {'intertables': d + '/global', 'geopotentials': d + '/globalgeo'}
    with Patched((cfg.UserConfiguration, 'config_dir', home), (cfg.GlobalConf, 'instance', G)):
        return cfg.IntertablesConfiguration(cfg.UserConfiguration())


def files_under(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), 'rb') as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out
