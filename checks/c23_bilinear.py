"""C23: bilinear interpolation and triangulation use source points around the target, whatever the range of longitudes."""
import math
import scipy.integrate
import scipy.optimize
import scipy.spatial
from engine.core import is_sym
from engine.lib import t_and, t_not, t_or
from engine.runner import Harness
from .interp_common import *
from .c08_tables import same_cells

ASSUMPTIONS = ['neighbours are ordered by their distance in the plane of latitude and longitude, longitudes scaled with the cosine of the middle latitude of the grid',
               'the target is nearer to its first neighbour than the bound the program sets (C06 and C07 decide what happens otherwise)',
               'in symbolic runs the root finder gives an exact solution of the two equations (replays use scipy)',
               'source grids hold no points at the poles, and the target is not on the northernmost row']
R = GEO['radius']


def regular(n=5, m=5, lat0=52.0, lon0=8.0, step=0.5):
    return [(lat0 - step * i, lon0 + step * j) for i in range(n) for j in range(m)]


def reduced(counts, lat0, lon0, lon1):
    return [(lat0 - i, lon0 + (lon1 - lon0) * j / (n - 1)) for i, n in enumerate(counts) for j in range(n)]


def near(x, middle):
    """x + 360 k, within 180 of middle"""
    return (x - middle + 180) % 360 - 180 + middle


GRIDS = {
    'regular': regular(),
    'south': regular(lat0=-20.0),
    'reduced': reduced([4, 5, 5, 6], 53.0, 5.0, 10.0),
    'west': [(a, b + 360) for a, b in regular(lon0=-9.0)],
    'greenwich': [(a, b % 360) for a, b in regular(lon0=-1.0)],
    'small': regular(3, 3), 'small west': [(a, b + 360) for a, b in regular(3, 3, lon0=-9.0)],
    'global': [(a, b) for a in (45.0, 15.0, -15.0, -45.0) for b in range(0, 360, 40)],
    'global date line': [(a, b) for a in (45.0, 15.0, -15.0, -45.0) for b in range(-180, 180, 40)],
    'coarse date line': [(a, near(b, 0)) for a in (45.0, 15.0, -15.0, -45.0) for b in (120, 160, 200, 240)],
    'date line': [(a, near(b, 0)) for a, b in regular(lon0=179.25)],
}
MIDDLE = {'global': 0.0, 'global date line': 180.0, 'coarse date line': 180.0, 'west': -8.0, 'small west': -8.0, 'greenwich': 0.0, 'date line': 180.0}


class Search:
    """k-d tree of a flat earth.  The only symbolic place asked for is the target's."""
    def __init__(self, t, pts, middle, place, nearest=1000.0, spacing=1e5):
        self.t, self.place, self.near, self.spacing = t, place, nearest, spacing
        self.pts = [(a, near(b, middle)) for a, b in pts]
        self.scale = round(math.cos(math.radians(sum(p[0] for p in pts) / len(pts))) ** 2, 3)
        self.middle, self.known = middle, {}

    def order(self, lat, lon, k):
        key = 'target' if is_sym(lat) or is_sym(lon) else (round(lat, 9), round(lon, 9))
        done, rest, ds = self.known.setdefault(key, ([], list(range(len(self.pts))), []))
        if not ds:
            # squares of distances without the part which is the same for all points
            ds += [(a * a - 2 * a * lat) + self.scale * (b * b - 2 * b * lon) for a, b in self.pts]
        while len(done) < k:
            best = rest[0]
            for j in rest[1:]:
                if bool(ds[j] < ds[best]):
                    best = j
            rest.remove(best)
            done.append(best)
        return done[:k]

    def tree(world):
        class KDTree:
            def __init__(self, data, *a, **k):
                self.data = np.asarray(data)
                self.n = len(self.data)

            def query(self, x, k=1, workers=1, **kw):
                x = np.asarray(x)
                if x.shape == self.data.shape and k == 2 and np.array_equal(x, self.data):
                    return np.array([[0.0, world.spacing]] * self.n), np.array([[i, (i + 1) % self.n] for i in range(self.n)])
                ix = []
                for p in x.reshape(-1, 3):
                    if any(is_sym(c) for c in p):
                        lat, lon = world.place
                    else:
                        p = [float(c) for c in p]
                        lat, lon = math.degrees(math.asin(max(-1.0, min(1.0, p[2] / R)))), near(math.degrees(math.atan2(p[1], p[0])), world.middle)
                    ix.append(world.order(lat, lon, k))
                ix = np.array(ix)
                ds = np.tile(world.near + 10.0 * np.arange(k), (len(ix), 1))
                if k == 1:
                    ds, ix = ds[:, 0], ix[:, 0]
                return (ds[0], ix[0]) if x.ndim == 1 else (ds, ix)
        return KDTree


class Roots:
    """scipy.optimize: an exact solution"""
    def __init__(self, t):
        self.t, self.n = t, 0

    def fsolve(self, f, x0, *a, **k):
        t = self.t
        if not t.symbolic:
            return scipy.optimize.fsolve(f, x0, *a, **k)
        self.n += 1
        r = np.empty(2, dtype=object)
        r[0], r[1] = t.real(f'alpha{self.n}', -3, 4), t.real(f'beta{self.n}', -3, 4)
        for e in f(r):
            t.assume(e == 0)
        return r


def run(t, mode, pts, lat, lon, search, patches=(), geo=GEO):
    target = Target([[0.0]], [[0.0]], mv=float('nan'))
    target.lats, target.lons = arr(t, [lat], shape=(1, 1)), arr(t, [lon], shape=(1, 1))
    src = np.array([10.0 + 3 * i * i for i in range(len(pts))])
    stubs = [(sil, 'opt', Roots(t)), (sil, 'KDTree', search.tree())] + list(patches)
    with Scratch() as d, Patched(*stubs):
        it = interpolator(d, mode, target, Config())
        out = it.interpolate(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), src, 'grid', geo)
        tab = last_table()
        idx, co = np.array(tab['indexes'], copy=True)[0], np.array(tab['coeffs'], copy=True)[0]
    return cells(out)[0], [int(i) for i in idx], list(co)


def missing(m, x):
    return m or (not is_sym(x) and x != x)


def bilinear(t, grid, rows, cols, shift=0, outside=False):
    """A target anywhere between some rows and columns of the grid"""
    pts, middle = GRIDS[grid], MIDDLE.get(grid, 8.0)
    lats = sorted({p[0] for p in pts})
    lons = sorted({near(p[1], middle) for p in pts})
    lat = t.real('lat', lats[rows[0]], lats[rows[1]]) if not outside else t.real('lat', lats[0] - 1, lats[-1] + 1)
    lon = t.real('lon', lons[cols[0]] if not isinstance(cols[0], float) else cols[0], lons[cols[1]] if not isinstance(cols[1], float) else cols[1]) if not outside else t.real('lon', lons[0] - 1, lons[-1] + 1)
    t.assume(lat < lats[-1] if not outside else t_or(lat < lats[-1], lat > lats[-1]))
    s = Search(t, pts, middle, (lat, lon))
    (m, x), idx, co = run(t, 'bilinear', pts, lat, lon + shift, s)
    inside = t_and(lat >= lats[0], lat <= lats[-1], lon >= lons[0], lon <= lons[-1])
    if outside and bool(t_not(inside)):
        t.cover('outside')
        t.check('outside the source grid is missing', missing(m, x))
        return
    t.cover('inside')
    around(t, [(a, near(b, middle)) for a, b in pts], lat, lon, idx, co)


def around(t, pts, lat, lon, idx, co):
    t.check('weights are defined', all(is_sym(q) or q == q for q in co))
    if not all(is_sym(q) or q == q for q in co):
        return
    t.eq('latitude is reproduced', sum(q * pts[i][0] for q, i in zip(co, idx)), lat)
    t.eq('longitude is reproduced', sum(q * pts[i][1] for q, i in zip(co, idx)), lon)


class Triangles(scipy.spatial.Delaunay):
    def find_simplex(self, p, *a, **k):
        p = np.asarray(p)
        if not any(is_sym(x) for x in p.ravel()):
            return super().find_simplex(np.asarray(p, dtype=float), *a, **k)
        out = []
        for x in p:
            for n, m in enumerate(self.transform):
                b = [sum(float(m[i, j]) * (x[j] - float(m[2, j])) for j in range(2)) for i in range(2)]
                if all(bool(q >= -1e-9) for q in (b[0], b[1], 1 - b[0] - b[1])):
                    out.append(n)
                    break
            else:
                out.append(-1)
        return np.array(out)


class Scale:
    """scipy.integrate.quad: the increasing function of the latitude which the triangulation uses"""
    def __init__(self, t, lats):
        self.t, self.n, self.place = t, 0, None
        self.table = [(x, scipy.integrate.quad(lambda q: 1 / math.cos(q), 0, math.radians(x))[0]) for x in lats]

    def __call__(self, f, lo, hi, *a, **k):
        if not is_sym(hi):
            return scipy.integrate.quad(f, lo, hi, *a, **k)
        t, lat = self.t, self.place[0]
        s = t.real('scaled latitude', -7, 7)
        for x, y in self.table:
            # its slope is never less than that of the latitude in radians
            k = math.radians(1)
            t.assume(t_or(t_and(lat < x, s - y <= (lat - x) * k), t_and(lat > x, s - y >= (lat - x) * k)))
        return s, 0.0


def triangles(t, mode, grid, rows, cols, rotated=False, shift=0):
    pts, middle = GRIDS[grid], MIDDLE.get(grid, 8.0)
    lats = sorted({p[0] for p in pts})
    lons = sorted({near(p[1], middle) for p in pts})
    lat = t.real('lat', lats[rows[0]], lats[rows[1]])
    lon = t.real('lon', *[lons[c] if not isinstance(c, float) else c for c in cols])
    # not within the tolerance of the search of triangles
    t.assume(t_and(*[t_or(lat <= x - 1e-3, lat >= x + 1e-3) for x in lats]))
    scale = Scale(t, lats)
    scale.place = lat, lon
    s = Search(t, pts, middle, (lat, lon))
    (m, x), idx, co = run(t, mode, pts, lat, lon + shift, s, [(sil, 'Delaunay', Triangles), (sil, 'quad', scale)], dict(GEO, gridType='rotated_ll') if rotated else GEO)
    t.cover('inside')
    flat = [(a, near(b, middle)) for a, b in pts]
    if rotated or mode == 'bilinear_delaunay':
        around(t, flat, lat, lon, idx, co)
        return
    t.check('weights are defined', all(is_sym(q) or q == q for q in co))
    if not all(is_sym(q) or q == q for q in co):
        return
    t.eq('longitude is reproduced', sum(q * flat[i][1] for q, i in zip(co, idx)), lon)
    used = [flat[i][0] for i in idx]
    t.check('the latitude is between those of the triangle', t_and(lat >= min(used), lat <= max(used)))


def ranges(t, mode, source, target, lon0, cmode='', groups=None, use_broadcasting=False):
    """The same places, with their longitudes in another range, get the same source points and weights"""
    near_points = mode in ('nearest', 'invdist', 'adw', 'cdd')
    k = {'nearest': 1, 'invdist': 4, 'adw': 11, 'cdd': 11}.get(mode)
    w = World(t, 11, k, free=(0,) if groups or k < 11 else (), groups=groups, orders=[list(range(11))] if k == 11 else None) if near_points else None
    if near_points:
        at = [(50.0 + a, lon0 + b) for a, b in AXES[:11]]
    else:
        at = [(51.0 - 0.5 * i, lon0 - 1 + 0.5 * j) for i in range(5) for j in range(5)]
    values = [t.real(f'value{i}', -1000, 1000) for i in range(len(at))]
    cdd_map = [t.real('cdd', 1, 2000) if groups else 600.0, 700.0, 800.0, 900.0]

    class Reader:
        def __init__(self, path, *a, **kw):
            self.values, self.mv = arr(t, list(cdd_map), shape=(2, 2)), MV

        def close(self):
            pass

    def once(of_source, of_target):
        tgt = Target([[50.0625, 50.0625], [49.6875, 49.6875]], [[of_target(lon0 + c) for c in (0.171875, 0.359375)]] * 2, mv=float('nan'))
        stubs = [(sil, 'PCRasterReader', Reader), (sil, 'NetCDFReader', Reader)] + ([(sil, 'KDTree', w.tree())] if w else [])
        opts = {'interpolation.use_broadcasting': use_broadcasting}
        if mode == 'cdd':
            opts.update({'interpolation.cdd_map': 'cdd.nc', 'interpolation.cdd_mode': cmode, 'interpolation.cdd_options': None})
        with Scratch() as d, Patched(*stubs):
            it = interpolator(d, mode, tgt, Config(), **opts)
            out = it.interpolate(np.array([p[0] for p in at]), np.array([of_source(p[1]) for p in at]), arr(t, list(values)), 'grid', GEO)
            tab = last_table()
            return cells(out), np.array(tab['indexes'], copy=True), np.array(tab['coeffs'], copy=True)
    one, idx, co = once(NOTATIONS['as is'], NOTATIONS['as is'])
    two, idx2, co2 = once(NOTATIONS[source], NOTATIONS[target])
    t.cover('compared')
    t.check('same source points', np.array_equal(idx, idx2))
    for (m1, x1), (m2, x2) in zip(one, two):
        a, b = undefined(m1, x1), undefined(m2, x2)
        t.check('the same cells are missing', a == b)
        if not a and not b:
            t.cover('value')
            t.eq('same value', x2, x1)
    for x1, x2 in zip(co.ravel(), co2.ravel()):
        if not is_sym(x1) and x1 != x1:
            t.check('the same weights are undefined', not is_sym(x2) and x2 != x2)
        else:
            t.eq('same weight', x2, x1)


def undefined(m, x):
    return bool(m) or (not is_sym(x) and x != x)


NOTATIONS = {'as is': lambda x: x, '0..360': lambda x: x % 360, '-180..180': lambda x: near(x, -1e-9)}
AXES = [(0.25, 0.5), (0.5, -0.25), (-0.5, -0.25), (-0.25, 0.75), (0.75, 0.25), (-0.75, 0.5), (1.0, -0.5), (-1.0, 0.25), (0.25, 1.0), (0.5, -1.0), (-0.25, -1.25)]

R_CASES = [('0..360', '-180..180', -8.0), ('-180..180', '0..360', 0.0), ('-180..180', '0..360', 179.75)]
L = ['Interpolator.interpolate_scipy', 'ScipyInterpolation._build_weights_bilinear', 'getWrongPointDirection', 'getWrongPointGridLikeShape', 'getWrongPointBestGridLikeShape', 'replaceIndex', 'replaceIndexCloseToPoint', 'get_correct_lats_lons',
     'get_clockwise_points', 'isConvexQuadrilateral', 'isPointInQuadrilateral']
BILINEAR = [dict(grid='regular', rows=(2, 3), cols=(2, 3)), dict(grid='regular', rows=(0, 1), cols=(0, 1)), dict(grid='south', rows=(3, 4), cols=(2, 3)),
         dict(grid='west', rows=(1, 2), cols=(1, 2)), dict(grid='west', rows=(1, 2), cols=(1, 2), shift=360), dict(grid='greenwich', rows=(1, 2), cols=(1, 2)), dict(grid='date line', rows=(1, 2), cols=(1, 2)),
         dict(grid='date line', rows=(1, 2), cols=(1, 2), shift=-360), dict(grid='global', rows=(1, 2), cols=(3, 4)), dict(grid='global', rows=(1, 2), cols=(3, 4), shift=360), dict(grid='global date line', rows=(0, 1), cols=(3, 4)), dict(grid='coarse date line', rows=(1, 2), cols=(1, 2)),
         dict(grid='reduced', rows=(0, 1), cols=(6.0, 7.0)), dict(grid='reduced', rows=(2, 3), cols=(7.0, 8.0)),
         dict(grid='small', rows=(0, 1), cols=(0, 1), outside=True), dict(grid='small west', rows=(0, 1), cols=(0, 1), outside=True)]
TRIANGLES = ([dict(mode=m, grid=g, rows=(1, 2), cols=(1, 2), shift=f) for m in ('triangulation', 'bilinear_delaunay') for g, f in (('regular', 0), ('west', 0), ('west', 360), ('greenwich', 0), ('date line', -360))]
    + [dict(mode=m, grid=g, rows=(1, 2), cols=(3, 4), shift=f) for m in ('triangulation', 'bilinear_delaunay') for g, f in (('global', 0), ('global date line', -360))]
    + [dict(mode='triangulation', grid='reduced', rows=(0, 1), cols=(6.0, 7.0)), dict(mode='triangulation', grid='reduced', rows=(0, 3), cols=(5.0, 10.0), rotated=True),
       dict(mode='triangulation', grid='regular', rows=(0, 4), cols=(0, 4), rotated=True), dict(mode='bilinear_delaunay', grid='regular', rows=(0, 2), cols=(0, 2))])
RANGES = ([dict(mode=m, source=a, target=b, lon0=lon0) for m in ('nearest', 'invdist', 'bilinear', 'bilinear_delaunay', 'triangulation') for a, b, lon0 in R_CASES]
    + [dict(mode='adw', source=a, target=b, lon0=lon0, use_broadcasting=u) for (a, b, lon0), u in zip(R_CASES, (False, True, False))]
    + [dict(mode='cdd', cmode=c, source=a, target=b, lon0=lon0) for c in ('Hofstra', 'MixHofstraShepard', 'NewEtAl') for a, b, lon0 in R_CASES])
HARNESSES = [
    Harness('bilinear', bilinear, BILINEAR, L, bounds='one target anywhere in a cell (or in and around a grid of 3x3 points) of regular, reduced and global grids', stubs=['KDTree', 'scipy.optimize.fsolve (symbolic runs)'], covers=['inside', 'outside'], tol=1e-5,
            thorough_params=BILINEAR + [dict(grid='regular', rows=(i, i + 1), cols=(j, j + 1)) for i in range(4) for j in range(4)] + [dict(grid='reduced', rows=(1, 2), cols=(6.0, 8.0)), dict(grid='reduced', rows=(2, 3), cols=(6.0, 9.0))]),
    Harness('triangles', triangles, TRIANGLES,
            ['ScipyInterpolation._build_weights_triangulation'], bounds='one target anywhere in 1 to 16 cells of regular, reduced and global grids', stubs=['KDTree', 'scipy.spatial.Delaunay.find_simplex, scipy.integrate.quad, scipy.optimize.fsolve (symbolic runs)'], covers=['inside'], tol=1e-5,
            thorough_params=TRIANGLES + [dict(mode='bilinear_delaunay', grid='regular', rows=(0, 4), cols=(0, 4)), dict(mode='triangulation', grid='reduced', rows=(0, 3), cols=(6.0, 9.0)), dict(mode='bilinear_delaunay', grid='south', rows=(0, 4), cols=(0, 4))]),
    Harness('ranges', ranges, RANGES,
            ['ScipyInterpolation.interpolate', 'ScipyInterpolation._build_weights_invdist', 'adw_and_cdd_compute_weights_directional_in_broadcasting', 'cdd_newetal_compute_weights_from_cutoff_distances'],
            bounds='targets of 2x2 west of Greenwich, on it and on the date line; longitudes of source and of target in -180..180 or 0..360', stubs=['KDTree', 'CDD map reader'], covers=['compared', 'value'], tol=1e-6,
            thorough_params=RANGES + [dict(mode='adw', source=a, target=b, lon0=lon0, groups='aaabbbbbccc') for a, b, lon0 in R_CASES]
            + [dict(mode='cdd', cmode=c, source=a, target=b, lon0=lon0, groups='aaabbbbbccc') for c in ('Hofstra', 'MixHofstraShepard', 'NewEtAl') for a, b, lon0 in R_CASES]),
]
