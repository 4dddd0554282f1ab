"""C08: interpolating with a saved table gives exactly what the run that created it gave, and the table is found again."""
import eccodes
from engine.core import is_sym
from engine.runner import Harness
from .interp_common import *
from .c07_interp_missing import src_values, missing, sum_eq
from .c06_weights import around, AXES, CUSTOM

ASSUMPTIONS = ['the k-d tree and eccodes nearest search are environment', 'one process writes at a time; files are real files in a scratch folder',
               'a later process has an empty table memory and reads the configuration files again']
SCIPY = ['nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay']


class Setup:
    """Source grid, target and neighbour search of one experiment."""
    def __init__(self, t, mode, tag='', seedcase=0):
        self.t, self.mode, self.searches = t, mode, 0
        self.n = 5
        self.lats = self.lons = None
        self.tgt = grid(1, 2)
        self.opts, self.stubs = {}, []
        env = self
        if mode.startswith('grib'):
            k = 1 if mode == 'grib_nearest' else 4
            self.tgt = grid(2, 2)
            state = t.choice('cell' + tag, ['inside', 'out of grid', 'coordinate missing']) if not seedcase else 'inside'
            if state == 'coordinate missing':
                self.tgt[0][1][0] = self.tgt[1][1][0] = MV
            ds = [t.real(f'd{tag}{j}', 0, 1000) for j in range(k)]
            t.assume(sum_eq(ds))
            lats, lons = self.tgt
            rows = {(lats[r][c], lons[r][c]): (ds if (r, c) == (0, 1) else [2.0 + j for j in range(k)], [(2 * r + c + j + seedcase) % 5 for j in range(k)])
                    for r in range(2) for c in range(2)}

            def find(gid, lat, lon, is_lsm=False, npoints=1):
                env.searches += 1
                a, ix = rows[lat, lon]
                if state == 'out of grid' and (lat, lon) == (lats[1][0], lons[1][0]):
                    raise eccodes.OutOfAreaError('out of grid')
                return [dict(distance=a[j], index=ix[j], lat=0, lon=0, value=0) for j in range(npoints)]
            self.stubs = [(eccodes, 'codes_grib_find_nearest', find)]
            return
        if mode in ('nearest', 'invdist', 'adw', 'cdd'):
            k = {'nearest': 1, 'invdist': 4}.get(mode, 11)
            self.n = 12 if k == 11 else 6
            pts = around() if k == 11 else [(51.0 - 0.4 * i, 8.0 + 0.7 * ((i * 3) % 6)) for i in range(6)]
            w = World(t, self.n, k, free=(0,) if not seedcase and k < 11 else (), name=tag, groups='aaabbbbbccc' if k == 11 else None,
                      orders=[list(range(11)) if not seedcase else [11, 9, 7, 5, 3, 1, 0, 2, 4, 6, 8]] if k == 11 else [[(j + seedcase) % 6 for j in range(k)]])
            self.w = w
            if mode == 'cdd':
                self.opts = {'interpolation.cdd_map': 'cdd.nc', 'interpolation.cdd_mode': 'MixHofstraShepard', 'interpolation.cdd_options': CUSTOM}
                cm = arr(t, [900.0, 50.0], shape=(1, 2))

                class R:
                    def __init__(self, *a, **k):
                        self.values, self.mv = cm, MV

                    def close(self):
                        pass
                self.stubs = [(sil, 'PCRasterReader', R), (sil, 'NetCDFReader', R)]
            tree = w.tree()

            class Tree(tree):
                def query(self, *a, **k):
                    env.searches += 1
                    return tree.query(self, *a, **k)
            self.stubs = self.stubs + [(sil, 'KDTree', Tree)]
        else:
            sl = grid(5, 5, lat0=51.0 + 0.1 * seedcase, lon0=9.0, step=0.5)
            pts = [(a, b) for ra, rb in zip(*sl) for a, b in zip(ra, rb)]
            self.n = 25
            self.tgt = ([[50.2, 50.0], [49.7, 60.0]], [[10.2, 10.0], [10.15, 40.0]])
            real = sil.KDTree

            class Tree(real):
                def query(self, *a, **k):
                    env.searches += 1
                    return real.query(self, *a, **k)
            self.stubs = [(sil, 'KDTree', Tree)]
        self.lats, self.lons = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])

    def interpolator(self, d, conf, create):
        return interpolator(d, self.mode, Target(*self.tgt), conf, **{'interpolation.create': create, **self.opts})

    def run(self, it, v, aggregated, grid_id='grid'):
        with Patched(*self.stubs):
            it.aux_for_intertable_generation(7, v, None, None)
            return it.interpolate(self.lats, self.lons, v, grid_id, GEO, gid=-1 if aggregated else 7)


def same_cells(t, label, a, b):
    t.check(label + ': same shape', np.shape(a) == np.shape(b))
    if np.shape(a) != np.shape(b):
        return
    for (ma_, x), (mb, y) in zip(cells(a), cells(b)):
        mx, my = missing(ma_, x), missing(mb, y)
        t.check(label + ': same missing cells', mx == my)
        if not mx and not my:
            t.eq(label + ': same value', x, y)


def roundtrip(t, mode, how):
    env = Setup(t, mode)
    v, vals, mask = src_values(t, env.n, 'a')
    agg = t.flag('aggregated') if mode.startswith('grib') else False
    with Scratch() as d:
        conf = real_conf(d)
        name = None
        if how != 'new':
            # an entry is registered, but its file is gone
            iid = f"Igrid_tgt{interp.Interpolator.suffixes[mode]}"
            name = 'mytable.npy' + ('.gz' if how == 'entry gz' else '')
            conf.user_vars[iid] = conf.vars[iid] = {'filename': name, 'method': mode}
            conf.dump()
            conf = real_conf(d)
        it = env.interpolator(d, conf, True)
        out1 = env.run(it, v, agg)
        searches = env.searches
        before = files_under(d)
        t.check('one table was written', len([f for f in before if f.startswith('user/')]) == 1)
        # the same run, next message
        vals2 = [t.real(f'vb{i}', -1000, 1000) for i in range(env.n)]
        v2 = arr(t, vals2, [i == 1 for i in range(env.n)] if any(mask) else None)
        out2 = env.run(it, v2, agg)
        out2b = env.run(it, v, agg)
        # a later run
        interp.Interpolator._LOADED_INTERTABLES.clear()
        it3 = env.interpolator(d, real_conf(d), False)
        out3 = env.run(it3, v, agg)
        out4 = env.run(it3, v2, agg)
        after = files_under(d)
        t.check('nothing is computed again', env.searches == searches)
        t.check('files untouched', before == after)
    t.cover('masked' if any(mask) else 'plain')
    same_cells(t, 'next message of the run', out1, out2b)
    same_cells(t, 'later run', out1, out3)
    same_cells(t, 'later run, other message', out2, out4)


def two_grids(t, mode):
    """Tables of two source grids made by one run stay apart, in memory and on file."""
    env, env2 = Setup(t, mode), Setup(t, mode, 'x', seedcase=2)
    v = arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(env.n)])
    with Scratch() as d:
        conf = real_conf(d)
        it = env.interpolator(d, conf, True)
        a1 = env.run(it, v, False, '0$359$10$5$50$regular_ll')
        b1 = env2.run(it, v, False, '0$359$12$5$60$regular_ll')
        t.check('two tables', len(os.listdir(d + '/user')) == 2)
        a2 = env.run(it, v, False, '0$359$10$5$50$regular_ll')
        interp.Interpolator._LOADED_INTERTABLES.clear()
        it = env.interpolator(d, real_conf(d), False)
        b3 = env2.run(it, v, False, '0$359$12$5$60$regular_ll')
        a3 = env.run(it, v, False, '0$359$10$5$50$regular_ll')
        # another method on the same grid must not take this table
        other = 'grib_nearest' if mode != 'grib_nearest' else 'grib_invdist'
        conf = real_conf(d)
        e3 = Setup(t, other, 'y', seedcase=1)
        it = interpolator(d, other, Target(*env.tgt), conf, **{'interpolation.create': False})
        try:
            e3.run(it, v, False, '0$359$10$5$50$regular_ll')
            t.check('table of another method not used', False)
        except interp.ApplicationException as e:
            t.check('no table for the other method', e.code == interp.NO_INTERTABLE_CREATED)
    t.cover('grids')
    same_cells(t, 'first grid, in memory', a1, a2)
    same_cells(t, 'first grid, later run', a1, a3)
    same_cells(t, 'second grid, later run', b1, b3)


FN = ['Interpolator._intertable_filename', 'Interpolator._read_intertable', 'Interpolator.update_intertable_conf', 'Interpolator.interpolate_scipy', 'Interpolator.grib_nearest',
      'Interpolator.grib_inverse_distance', 'IntertablesConfiguration.__init__/merge_with_user_conf/dump']
HARNESSES = [
    Harness('roundtrip', roundtrip, [dict(mode=m, how=h) for m in SCIPY + ['grib_nearest', 'grib_invdist'] for h in ('new', 'entry', 'entry gz') if h != 'entry' or m in ('nearest', 'bilinear', 'grib_nearest', 'grib_invdist')], FN,
            bounds='create, next message, later run; 2-4 target cells; any values, bitmap and (free target cell) distances; table new or registered without its file',
            stubs=['KDTree', 'eccodes.codes_grib_find_nearest'], covers=['masked', 'plain'], tol=1e-11),
    Harness('two_grids', two_grids, [dict(mode=m) for m in SCIPY + ['grib_nearest', 'grib_invdist']], FN, bounds='two source grids in one run, then a later run; any values', stubs=['KDTree', 'eccodes.codes_grib_find_nearest'],
            covers=['grids'], tol=1e-11),
]
