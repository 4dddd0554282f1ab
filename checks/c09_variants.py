"""C09: parallel, split and broadcast runs give what the plain run gives."""
import dask
import eccodes
from engine.runner import Harness
from .interp_common import *
from .c07_interp_missing import missing, sum_eq
from .c06_weights import around, CUSTOM

ASSUMPTIONS = ['the k-d tree and eccodes nearest search are environment and answer each location the same way in every run',
               'the parallel GRIB methods run their dask graph with the synchronous scheduler (the scheduler itself is environment)',
               'adw/cdd: neighbour distances take few distinct values per target cell; source positions are fixed']


def same(t, label, a, b):
    (ia, wa, va), (ib, wb, vb) = a, b
    t.check(label + ': same shapes', all(np.shape(x) == np.shape(y) for x, y in ((ia, ib), (wa, wb), (va, vb))))
    if not all(np.shape(x) == np.shape(y) for x, y in ((ia, ib), (wa, wb), (va, vb))):
        return
    t.check(label + ': same indexes', bool(np.array_equal(np.asarray(ia, dtype=int), np.asarray(ib, dtype=int))))
    for (_, x), (_, y) in zip(cells(wa), cells(wb)):
        mx, my = missing(False, x), missing(False, y)
        t.check(label + ': weight defined', mx == my)
        if not mx and not my:
            t.eq(label + ': same weight', x, y)
    for (m, x), (n, y) in zip(cells(va), cells(vb)):
        mx, my = missing(m, x), missing(n, y)
        t.check(label + ': same missing cells', mx == my)
        if not mx and not my:
            t.eq(label + ': same value', x, y)


def scipy_variants(t, mode, shape, variants, groups=None, cmode=None, options=None):
    n, k = (12, 11) if mode in ('adw', 'cdd') else (6, {'nearest': 1}.get(mode, 4))
    tgt = grid(*shape)
    w = World(t, n, k, free=(0, shape[1]) if k < 11 else (0,), groups=groups,
              dmax=300 if k == 11 else 1e6,
              orders=[list(range(11)), [11, 9, 7, 5, 3, 1, 0, 2, 4, 6, 8]] if k == 11 else [[(j + s) % n for j in range(k)] for s in (0, 2, 3)])
    pts = around() if k == 11 else [(51.0 - 0.4 * i, 8.0 + 0.7 * ((i * 3) % 6)) for i in range(6)]
    lats, lons = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    v = arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(n)])
    opts = {}
    stubs = [(sil, 'KDTree', w.tree())]
    if mode == 'cdd':
        opts = {'interpolation.cdd_map': 'cdd.nc', 'interpolation.cdd_mode': cmode, 'interpolation.cdd_options': options}
        nt = shape[0] * shape[1]
        cm = [t.real('cdd', 1, 2000) if i == 0 and cmode != 'NewEtAl' else 50.0 + 400.0 * (i % 3) for i in range(nt)]

        class R:
            def __init__(self, *a, **k):
                self.values, self.mv = arr(t, cm, shape=shape), MV

            def close(self):
                pass
        stubs += [(sil, 'PCRasterReader', R), (sil, 'NetCDFReader', R)]

    def go(splits=None, bc=False, par=False):
        with Scratch() as d, Patched(*stubs):
            it = interpolator(d, mode, Target(*tgt, mv=float('nan')), Config(), **{'interpolation.num_of_splits': splits, 'interpolation.use_broadcasting': bc,
                                                                  'interpolation.parallel': par, **opts})
            out = it.interpolate(lats, lons, v, 'grid', GEO)
            tab = last_table()
            return np.array(tab['indexes'], copy=True), np.array(tab['coeffs'], copy=True), out
    plain = go()
    for kw in variants:
        t.cover('variant')
        same(t, str(kw), plain, go(**kw))


class Bar:
    """no progress bar (it sleeps)"""
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def grib_variants(t, mode, shape):
    """serial and parallel GRIB interpolation"""
    nr, nc = shape
    lats, lons = grid(nr, nc)
    k = 1 if mode == 'grib_nearest' else 4
    answers = {}
    free = {0, nr * nc - 1} | ({nc} if nr > 1 else set())
    for i in range(nr * nc):
        r, c = divmod(i, nc)
        st = t.choice(f'cell{i}', ['inside', 'out of grid', 'coordinate missing']) if i in free else 'inside'
        if i == 0 and k == 4 and st == 'inside':
            ds = [t.real(f'd{j}', 0, 1000) for j in range(k)]
            t.assume(sum_eq(ds))
        else:
            ds = [2.0 + i + j for j in range(k)]
        if st == 'coordinate missing':
            lats[r][c] = lons[r][c] = MV
        else:
            answers[lats[r][c], lons[r][c]] = None if st == 'out of grid' else (ds, [(i + 2 * j) % 7 for j in range(k)])

    def find(gid, lat, lon, is_lsm=False, npoints=1):
        a = answers[lat, lon]
        if a is None:
            raise eccodes.OutOfAreaError('out of grid')
        return [dict(distance=a[0][j], index=a[1][j], lat=0, lon=0, value=0) for j in range(npoints)]
    v = arr(t, [t.real(f'v{i}', -1000, 1000) for i in range(7)])

    def go(par):
        with Scratch() as d, Patched((eccodes, 'codes_grib_find_nearest', find), (gil, 'ProgressBar', Bar)), dask.config.set(scheduler='synchronous'):
            it = interpolator(d, mode, Target(lats, lons), Config(), **{'interpolation.parallel': par})
            it.aux_for_intertable_generation(7, v, None, None)
            out = it.interpolate(None, None, v, 'grid', GEO, gid=7)
            tab = last_table()
            if mode == 'grib_nearest':
                return np.array(tab, copy=True), np.ones(1), out
            return np.array(tab['indexes'], copy=True), np.array(tab['coeffs'], copy=True), out
    if not answers or all(a is None for a in answers.values()):
        t.cover('no cell')
        return
    t.cover('variant')
    same(t, 'parallel', go(False), go(True))


SP = [dict(splits=s) for s in (1, 2, 3, 5)]
MIX = [dict(bc=True), dict(splits=2, bc=True), dict(par=True), dict(splits=2, par=True, bc=True)]


def jobs(tier=0):
    out = []
    for g in ('aaaaaabbbbb', 'aaabbbbbccc') if tier else ('aaaaaabbbbb',):
        for sh in ((3, 2), (2, 1), (5, 1), (4, 2)) if tier else ((3, 1), (2, 2)):
            out += [dict(mode='adw', shape=sh, variants=x, groups=g) for x in (SP, MIX)]
            for cmode, o in (('Hofstra', None), ('MixHofstraShepard', None), ('MixHofstraShepard', CUSTOM), ('NewEtAl', None)):
                if cmode == 'NewEtAl' and sh[1] < 2:
                    continue
                out += [dict(mode='cdd', shape=sh, variants=x, groups=g, cmode=cmode, options=o) for x in ((SP, MIX) if tier else ((SP[1:3] + MIX[:2]) if cmode != 'NewEtAl' else MIX[:2],))]
    for m in ('nearest', 'invdist', 'bilinear') if tier else ('nearest', 'invdist'):
        out += [dict(mode=m, shape=(3, 2), variants=[dict(par=True), dict(splits=2), dict(splits=3, par=True)])]
    return out


HARNESSES = [
    Harness('scipy', scipy_variants, lambda: jobs(), ['ScipyInterpolation.interpolate', 'ScipyInterpolation.interpolate_split', '_build_weights_invdist', '_build_nn',
                                                      'adw_compute_weights_from_cutoff_distances', 'adw_and_cdd_compute_weights_directional_in_broadcasting', 'cdd_* weights'],
            thorough_params=lambda: jobs(1), bounds='targets of up to 3x2 (5x1, 4x2 thorough); 1,2,3,5 splits x broadcasting x parallel; one cell with any distances (two or three groups), any values',
            stubs=['KDTree', 'NetCDFReader/PCRasterReader of the cdd map'], covers=['variant'], tol=1e-9),
    Harness('grib', grib_variants, [dict(mode=m, shape=s) for m in ('grib_nearest', 'grib_invdist') for s in ((2, 3), (3, 1), (1, 3))],
            ['grib_nearest', 'grib_nearest_parallel', 'grib_invdist', 'grib_invdist_parallel', 'init_parallel', 'concatenate_*'],
            thorough_params=[dict(mode=m, shape=s) for m in ('grib_nearest', 'grib_invdist') for s in ((2, 3), (3, 1), (1, 3), (4, 2), (3, 3), (7, 1))],
            bounds='targets up to 2x3 (3x3, 7x1 thorough); three cells inside, outside or without coordinates; any distances (one cell) and values',
            stubs=['eccodes.codes_grib_find_nearest', 'dask synchronous scheduler'], covers=['variant']),
]
