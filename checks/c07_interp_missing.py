"""C07: interpolation keeps missing data missing and valid data valid, and puts every value in its own cell."""
import math
import eccodes
from engine.core import is_sym
from engine.runner import Harness
from .interp_common import *

ASSUMPTIONS = ['neighbour search (k-d tree, eccodes) is the environment',
               'a target cell with missing coordinates has no source with the GRIB methods (those skip it); scipy methods use the coordinates given',
               'values below a mask are whatever the decoder left there']


def src_values(t, n, tag='', always_masked=True):
    """Values and bitmap of a message: no bitmap, or any bitmap over the first cells."""
    vals = [t.real(f'v{tag}{i}', -1000, 1000) for i in range(n)]
    if not t.flag(f'bitmap{tag}'):
        return arr(t, vals), vals, [False] * n
    mask = [t.flag(f'm{tag}{i}') if i in (0, 2, n - 1) else False for i in range(n)]
    return arr(t, vals, mask), vals, mask


def missing(m, x):
    return m or (not is_sym(x) and (x == MV or x != x))


def verify(t, out, shape, rows, vals, mask):
    """rows: per target cell the list of (source index, weight) or None"""
    t.check('shape of the target', tuple(np.shape(out)) == tuple(shape))
    if tuple(np.shape(out)) != tuple(shape):
        return
    for (m, x), row in zip(cells(out), rows):
        if row is None or any(mask[i] for i, w in row):
            t.cover('missing')
            t.check('missing data stays missing', missing(m, x))
        else:
            t.cover('valid')
            t.check('valid data stays valid', not missing(m, x))
            if not missing(m, x):
                t.eq('weighted sum of its own sources', x, sum(w * vals[i] for i, w in row))


# ---------------------------------------------------------------- fresh tables
def scipy_fresh(t, mode):
    """The table is created by this very run."""
    n = 6
    shape = (2, 3) if mode == 'nearest' else (1, 2)
    lats, lons = grid(*shape)
    target = Target(lats, lons)
    k = Interp.scipy_modes_nnear[mode]
    orders = [[0, 1, 2, 3], [2, 5, 4, 0], [5, 4, 3, 2]]
    w = World(t, n, k, free=(0,), orders=[o[:k] for o in orders])
    src_at = [(51.0 - 0.4 * i, 8.0 + 0.7 * ((i * 3) % n)) for i in range(n)]
    v, vals, mask = src_values(t, n)
    conf = Config()
    with Scratch() as d, Patched((sil, 'KDTree', w.tree())):
        it = interpolator(d, mode, target, conf)
        out = it.interpolate(np.array([p[0] for p in src_at]), np.array([p[1] for p in src_at]), v, 'grid', GEO)
    res = w.res + w.res * 4 / GEO['Nj']
    rows = []
    for ds, ix in w.rows.values():
        if bool(ds[0] > res):
            rows.append(None)
        elif k == 1 or bool(ds[0] <= 1e-10):
            rows.append([(ix[0], 1.0)])
        else:
            inv = [1.0 / (q * q) for q in ds]
            rows.append([(i, q / sum(inv)) for i, q in zip(ix, inv)])
    verify(t, out, shape, rows, vals, mask)


Interp = interp.Interpolator
STATES = ['inside', 'out of grid', 'coordinate missing', 'nan', 'below', 'limit']


def grib(t, mode, ncells, parallel=False, aggregated=False):
    """Every target cell inside the grid, outside of it or without coordinates."""
    shape = (2, 3)
    lats, lons = grid(*shape)
    states = [t.choice(f'cell{i}', STATES if ncells < 3 else STATES[:3]) if n_ < ncells else 'inside' for n_, i in enumerate((3, 0, 1, 2, 5, 4))]
    cell = dict(zip((3, 0, 1, 2, 5, 4), states))
    n = 5
    npts = 4 if mode == 'grib_invdist' else 1
    rows, answers = [], {}
    dist = [t.real(f'd{j}', 0, 1000) for j in range(npts)]
    if npts > 1:
        t.assume(sum_eq(dist))
    for i in range(6):
        r, c = divmod(i, 3)
        st = cell[i]
        if st in ('inside', 'out of grid'):
            key = (lats[r][c], lons[r][c])
            ix = [(i + 2 * j) % n for j in range(npts)]
            ds = dist if i == 3 else [3.0 + j for j in range(npts)]
            answers[key] = None if st == 'out of grid' else (ds, ix)
            if st == 'out of grid':
                rows.append(None)
            elif npts == 1:
                rows.append([(ix[0], 1.0)])
            else:
                exact = [j for j in range(4) if bool(ds[j] == 0)]
                if exact:
                    t.cover('coincident')
                    rows.append([(ix[exact[0]], 1.0)])
                else:
                    inv = [1.0 / q for q in ds]
                    rows.append([(a, q / sum(inv)) for a, q in zip(ix, inv)])
        else:
            bad = {'coordinate missing': MV, 'nan': float('nan'), 'below': -2e10, 'limit': -1e10}[st]
            lons[r][c] = bad
            if st != 'limit' or True:
                lats[r][c] = bad
            rows.append(None)

    def find(gid, lat, lon, is_lsm=False, npoints=1):
        t.check('message handle used', gid == 7)
        if (lat, lon) not in answers:
            # garbage in, garbage out: eccodes finds something
            return [dict(distance=1.0 + j, index=j, lat=0, lon=0, value=0) for j in range(npoints)]
        a = answers[lat, lon]
        if a is None:
            raise eccodes.OutOfAreaError('out of grid')
        return [dict(distance=a[0][j], index=a[1][j], lat=0, lon=0, value=0) for j in range(npoints)]
    v, vals, mask = src_values(t, n)
    conf = Config()
    with Scratch() as d, Patched((eccodes, 'codes_grib_find_nearest', find)):
        it = interpolator(d, mode, Target(lats, lons), conf, **{'interpolation.parallel': parallel})
        it.aux_for_intertable_generation(7, v, None, None)
        out = it.interpolate(None, None, v, 'grid', GEO, gid=-1 if aggregated else 7)
    verify(t, out, shape, rows, vals, mask)


def sum_eq(ds):
    """at most one coincident neighbour (the sources are distinct points)"""
    from engine.lib import t_and, t_or, t_not
    return t_and(*[t_or(ds[i] > 0, ds[j] > 0) for i in range(len(ds)) for j in range(i)])


# ---------------------------------------------------------------- existing tables
def table(t, mode, gz, two_d):
    """A table file made by an earlier run; indexes past the end stand for 'no source'."""
    import gzip
    n, shape = 6, (3, 2)
    lats, lons = grid(*shape)
    v, vals, mask = src_values(t, n)
    k = 4 if mode == 'grib_invdist' else 1 if mode == 'grib_nearest' else Interp.scipy_modes_nnear[mode]
    conf = Config()
    rows = []
    nt = 6
    if mode.startswith('grib'):
        where = [0, 2, 3, 5]     # cells 1 and 4 have no source
        xs, ys = np.array([i // 2 for i in where]), np.array([i % 2 for i in where])
        idx = np.array([[(i + 3 * j + 1) % n for i in range(4)] for j in range(k)])
        co = np.array([[.5, .125, 0.0, 1.0], [.25, .5, 0.25, 0.0], [.25, .375, .5, 0.0], [0.0, 0.0, .25, 0.0]])
        if k == 1:
            tab = np.asarray([xs, ys, idx[0]])
            co = np.ones((1, 4))
        else:
            tab = np.rec.fromarrays((np.asarray([xs, ys, *idx]), np.asarray([*co, np.zeros(4), np.zeros(4)])), names=('indexes', 'coeffs'))
        for c in range(nt):
            rows.append(None if c not in where else [(int(idx[j][where.index(c)]), float(co[j][where.index(c)])) for j in range(k) if co[j][where.index(c)]])
    else:
        idx = np.array([[(i + 2 * j) % n for j in range(k)] for i in range(nt)])
        co = np.zeros((nt, k))
        co[:, 0] = 1.0
        if k > 1:
            co[1, :3] = [.5, .25, .25]
            co[4, :3] = [.25, .25, .5]
            co[2] = np.nan          # out of range
            idx[2] = n
        else:
            idx, co = idx[:, 0].copy(), np.ones(nt)
            idx[2] = n
        for c in range(nt):
            ix = np.atleast_1d(idx[c])
            rows.append(None if ix[0] == n else [(int(i), float(q)) for i, q in zip(ix, np.atleast_1d(co[c])) if q])
        tab = np.rec.fromarrays((idx, co), names=('indexes', 'coeffs'))
    with Scratch() as d:
        it = interpolator(d, mode, Target(lats, lons), conf, **{'interpolation.create': False})
        iid = f'Igrid_tgt{it.suffixes[mode]}'
        conf.vars[iid] = {'filename': 'table.npy' + ('.gz' if gz else '')}
        path = d + '/user/' + conf.vars[iid]['filename']
        with (gzip.open if gz else open)(path, 'wb') as f:
            np.save(f, tab)
        if two_d:
            v = v.reshape(2, 3)
        out = it.interpolate(None, None, v, 'grid', GEO, gid=-1)
    verify(t, out, shape, rows, vals, mask)


SCIPY = ['nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay']
HARNESSES = [
    Harness('scipy_fresh', scipy_fresh, [dict(mode='nearest'), dict(mode='invdist')], ['Interpolator.interpolate_scipy', '_interpolate_scipy_append_mv', 'ScipyInterpolation.interpolate'],
            bounds='6 source points with any values and bitmap (3 cells of it free); 6 (nearest) or 2 target cells, any distances', stubs=['KDTree'], covers=['missing', 'valid']),
    Harness('grib', grib, [dict(mode=m, ncells=k, aggregated=a) for m in ('grib_nearest', 'grib_invdist') for k, a in ((2, False), (3, True))],
            ['Interpolator.grib_nearest', 'Interpolator.grib_inverse_distance', 'grib_nearest', 'grib_invdist', '_compute_coeffs_and_idxs', 'numeric.result_masked'],
            bounds='2x3 target; up to 3 cells in any state (inside, outside, coordinates missing/NaN/below limit); 5 source cells with any values and bitmap', stubs=['eccodes.codes_grib_find_nearest'],
            covers=['missing', 'valid', 'coincident'], thorough_params=[dict(mode=m, ncells=k, aggregated=a) for m in ('grib_nearest', 'grib_invdist') for k in (2, 4) for a in (False, True)]),
    Harness('table', table, [dict(mode=m, gz=g, two_d=False) for m in SCIPY + ['grib_nearest', 'grib_invdist'] for g in (False, True)],
            ['Interpolator._read_intertable', '_interpolate_scipy_append_mv', 'Interpolator.grib_nearest', 'Interpolator.grib_inverse_distance'],
            bounds='table of 6 target cells for every method, plain or compressed; any values and bitmap', covers=['missing', 'valid']),
]
