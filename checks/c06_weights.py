"""C06: interpolation weights are a convex combination, with the documented shape."""
import math
import eccodes
from pyg2p.exceptions import ApplicationException
from engine.core import is_sym
from engine.runner import Harness
from .interp_common import *

ASSUMPTIONS = ['the k-d tree and eccodes nearest search are environment: any non-decreasing distances, distinct neighbours, at least as many source points as neighbours',
               'adw/cdd: the neighbour distances take up to four distinct values per target cell (which neighbours share a value is enumerated); source positions are fixed around the cell',
               'exp is an uninterpreted positive function (exp(x) < 1 for x < 0)',
               'the bilinear root finder may return any pair of numbers']

# eleven sources on the axes around target cell 0 (exact cosines), one more for cell 1
AXES = [(1, 0), (0, 1), (-1, 0), (0, -1), (2, 0), (0, 2), (-2, 0), (0, -2), (.25, 0), (0, .25), (-.25, 0), (0, -.25)]


def isnan(x):
    return not is_sym(x) and x != x


def convex(t, label, ws):
    """weights are non negative and sum to one"""
    t.check(label + ': no undefined weight', not any(isnan(w) for w in ws))
    if any(isnan(w) for w in ws):
        return
    for w in ws:
        t.le(label + ': weight not negative', 0, w)
    t.eq(label + ': weights sum to one', sum(ws), 1.0)


def run(t, mode, k, nsrc, free, groups=None, src_at=None, rows=1, reader=None, order=None, tgt=None, **opts):
    lats, lons = tgt or grid(rows, 2)
    target = Target(lats, lons, mv=float('nan'))
    w = World(t, nsrc, k, free=free, groups=groups, orders=order)
    if src_at is None:
        src_at = [(51.0 - 0.4 * i, 8.0 + 0.7 * ((i * 3) % nsrc)) for i in range(nsrc)]
    src = np.array([10.0 + 3 * i * i for i in range(nsrc)])
    conf = Config()
    stubs = [(sil, 'KDTree', w.tree())]
    if reader is not None:
        class R:
            def __init__(self, path, *a, **k):
                self.values = reader
                self.mv = MV

            def close(self):
                pass
        stubs += [(sil, 'PCRasterReader', R), (sil, 'NetCDFReader', R)]
    with Scratch() as d, Patched(*stubs):
        it = interpolator(d, mode, target, conf, **{'interpolation.' + k: v for k, v in opts.items()})
        out = it.interpolate(np.array([p[0] for p in src_at]), np.array([p[1] for p in src_at]), src, 'grid', GEO)
        tab = last_table()
        idx, co = tab['indexes'], tab['coeffs']
        idx, co = np.array(idx, copy=True), np.array(co, copy=True)
    return w, src, out, idx, co


def missing(m, x):
    return m or (not is_sym(x) and (x == MV or x != x))


# ---------------------------------------------------------------- nearest, inverse distance
def nearest(t):
    w, src, out, idx, co = run(t, 'nearest', 1, 5, free=None)
    res = w.res + w.res * 4 / GEO['Nj']
    for i, (ds, ix) in enumerate(w.rows.values()):
        m, x = cells(out)[i]
        if bool(ds[0] <= res):
            t.cover('near')
            t.eq('nearest value', x, src[ix[0]])
        else:
            t.cover('too far')
            t.check('too far is missing', missing(m, x))


def invdist(t):
    w, src, out, idx, co = run(t, 'invdist', 4, 6, free=(0,), order=[[0, 1, 2, 3], [5, 2, 0, 4]])
    res = w.res + w.res * 4 / GEO['Nj']
    for i, (ds, ix) in enumerate(w.rows.values()):
        m, x = cells(out)[i]
        ws = list(co[i])
        if bool(ds[0] > res):
            t.cover('too far')
            t.check('too far is missing', missing(m, x))
            continue
        convex(t, 'invdist', ws)
        used = [int(j) for j in idx[i]]
        t.check('nearest neighbour kept', used[0] == ix[0])
        if bool(ds[0] <= 1e-10):
            t.cover('coincident')
            t.eq('coincident point takes its value', x, src[ix[0]])
            continue
        t.cover('interior')
        inv = [1.0 / (q * q) for q in ds]
        tot = sum(inv)
        t.check('neighbours in order', used == list(ix))
        for j in range(4):
            t.eq('inverse square distance weight', ws[j], inv[j] / tot)
        t.eq('value', x, sum(ws[j] * src[ix[j]] for j in range(4)))


# ---------------------------------------------------------------- angular distance weighting
def around(k=0, step=0.5, coincide=False):
    pts = [(50.0 + a, 10.0 + b) for a, b in AXES]
    if coincide:
        pts[0] = (50.0, 10.0)
    return pts


def cosines(ix, pts, lat, lon):
    n = len(ix)
    c = [[1.0] * n for _ in range(n)]
    v = [(lat - pts[j][0], lon - pts[j][1]) for j in ix]
    for a in range(n):
        for b in range(n):
            den = math.hypot(*v[a]) * math.hypot(*v[b])
            c[a][b] = (v[a][0] * v[b][0] + v[a][1] * v[b][1]) / den if den else float('nan')
    return c


def directional(t, s, c):
    n = len(s)
    out = []
    for i in range(n):
        den = sum(s[j] for j in range(n) if j != i)
        num = sum((1.0 - c[i][j]) * s[j] for j in range(n) if j != i)
        out.append(1.0 if (not is_sym(den) and den == 0) or (is_sym(den) and bool(den == 0)) else num / den)
    return out


def check_weights(t, label, expected, got, tot):
    for e, g in zip(expected, got):
        t.eq(label, g, e / tot)


def adw(t, groups, use_broadcasting=False, fixed=None):
    pts = around()
    w, src, out, idx, co = run(t, 'adw', 11, 12, free=(0,), groups=groups, src_at=pts, use_broadcasting=use_broadcasting, order=[list(range(11))])
    (ds, ix), (d1, ix1) = list(w.rows.values())
    (m, x) = cells(out)[0]
    ws = list(co[0])
    convex(t, 'adw', ws)
    t.check('neighbours in order', [int(j) for j in idx[0]] == list(ix))
    if any(isnan(q) for q in ws):
        return
    if bool(ds[0] <= 1e-10):
        t.cover('coincident')
        t.eq('coincident point takes its value', x, src[ix[0]])
        return
    # Shepard 1968
    ref = (ds[6] + d1[6]) / 2.0
    if bool(ds[3] > ref):
        r = ds[4]
        t.cover('radius of four neighbours')
    elif bool(ds[9] > ref):
        r = ref
        t.cover('reference radius')
    else:
        r = ds[10]
        t.cover('radius of ten neighbours')
    s = []
    for q in ds:
        if bool(q <= r / 3.0):
            s.append(1.0 / q)
        elif bool(q <= r):
            s.append(6.75 / r * ((q / r - 1.0) * (q / r - 1.0)))
        else:
            s.append(0.0)
    if bool(ds[0] == r):
        t.cover('all on the radius')
        return
    tt = directional(t, s, cosines(ix, pts, 50.0, 10.0))
    e = [a * a * (1.0 + b) for a, b in zip(s, tt)]
    check_weights(t, 'Shepard weight', e, ws, sum(e))
    t.eq('value', x, sum(q * src[j] for q, j in zip(ws, ix)))


def adw_coincident(t):
    """the first source is at the target cell"""
    pts = around(coincide=True)
    w, src, out, idx, co = run(t, 'adw', 11, 12, free=(0,), groups='abbbccccddd', src_at=pts, order=[list(range(11))])
    (ds, ix), _ = list(w.rows.values())
    t.assume(ds[0] <= 1e-10)
    t.assume(ds[1] > 1)
    ws = list(co[0])
    t.cover('coincident')
    convex(t, 'adw', ws)
    t.eq('coincident point takes its value', cells(out)[0][1], src[ix[0]])


def texp(t, x):
    return x.exp() if is_sym(x) else math.exp(x)


def cdd(t, cmode, groups, options=None, use_broadcasting=False):
    pts = around()
    cmap = [t.real('cdd', 1, 2000), 50.0] if cmode != 'NewEtAl' else [t.real('cdd', 1, 2000), 50.0, 50.0, 50.0]
    rows = 1 if cmode != 'NewEtAl' else 2
    reader = arr(t, cmap, shape=(rows, 2))
    w, src, out, idx, co = run(t, 'cdd', 11, 12, free=(0,), groups=groups, src_at=pts, rows=rows, reader=reader,
                               order=[list(range(11))], cdd_map='cdd.nc', cdd_mode=cmode, cdd_options=options, use_broadcasting=use_broadcasting)
    ds, ix = list(w.rows.values())[0]
    (m, x) = cells(out)[0]
    ws = list(co[0])
    C = cmap[0] * 1000.0
    if cmode == 'Hofstra':
        if bool(ds[2] > C):
            t.cover('less than three stations')
            t.check('missing without three stations', missing(m, x))
            return
        s = [texp(t, q * -4.0 / C) if bool(q <= C) else 0.0 for q in ds]
    elif cmode == 'MixHofstraShepard':
        o = options or dict(m_const=4, min_num_of_station=4, radius_ratio=1 / 3, weights_mode='All')
        if options:
            t.assume(ds[2] != C)   # on the radius the weight is zero anyway
            t.assume(ds[10] != C)
        M, N, R = o['m_const'], o['min_num_of_station'], o['radius_ratio']
        if bool(ds[N - 1] > C):
            r = ds[N]
            t.cover('few stations')
        elif bool(ds[9] > C):
            r = C
            t.cover('cdd radius')
        else:
            r = ds[10]
            t.cover('many stations')
        if bool(ds[0] == r):
            t.check('no undefined weight', not any(isnan(q) for q in ws))
            return
        k2 = (1 / (R - 1) ** 2) * math.exp(-M * R)
        s = [texp(t, q * -float(M) / r) if bool(q <= r * R) else k2 * ((q / r - 1.0) * (q / r - 1.0)) if bool(q <= r) else 0.0 for q in ds]
    else:
        cov = [(min(max(int((50.0 - p[0]) / 0.5), 0), 1), min(max(int((10.0 - p[1]) / -0.5), 0), 1)) for p in pts]
        cs = [cmap[2 * a + b] * 1000.0 for a, b in cov]
        s = [texp(t, q * -4.0 / cs[j]) if bool(q <= cs[j]) else 0.0 for q, j in zip(ds, ix)]
        if all(not is_sym(q) and q == 0 for q in s):
            t.cover('no station')
            t.check('missing without stations', missing(m, x))
            return
    convex(t, 'cdd', ws)
    if any(isnan(q) for q in ws):
        return
    t.cover('weights')
    t.check('neighbours in order', [int(j) for j in idx[0]] == list(ix))
    if options and options['weights_mode'] == 'OnlyTOP10':
        drop = [j for j in range(11) if not is_sym(ws[j]) and ws[j] == 0]
        t.check('one of the eleven is dropped', len(drop) >= 1)
        if not drop:
            return
        for q in s:
            t.le('the smallest is dropped', s[drop[-1]], q)
        s[drop[-1]] = 0.0
    tt = directional(t, s, cosines(ix, pts, 50.0, 10.0))
    tot = sum(tt)
    e = [a * (1.0 + b / tot) for a, b in zip(s, tt)]
    check_weights(t, 'cdd weight', e, ws, sum(e))
    t.eq('value', x, sum(q * src[j] for q, j in zip(ws, ix)))


def cdd_unusable(t):
    """A map of CDD radii of another size than the target maps, or an unknown CDD mode, is an error and leaves no table."""
    cmode = t.choice('cdd mode', ['Hofstra', 'MixHofstraShepard', 'NewEtAl', 'Shepard'])
    rows = t.conc_int('rows of the cdd map', 1, 4)
    cols = t.conc_int('columns of the cdd map', 1, 3)
    splits = t.choice('splits', [None, 2])
    reader = arr(t, [t.real('cdd', 1, 2000)] + [50.0] * (rows * cols - 1), shape=(rows, cols))
    usable = (rows, cols) == (2, 2) and cmode != 'Shepard'
    try:
        w, src, out, idx, co = run(t, 'cdd', 11, 12, free=(), src_at=around(), rows=2, reader=reader, cdd_map='cdd.nc', cdd_mode=cmode, num_of_splits=splits,
                                   order=[list(range(11))])
    except ApplicationException:
        t.cover('refused')
        t.check('a cdd map of the same size as the target is accepted', not usable)
        t.check('no table of a refused interpolation', last_table() is None)
        return
    t.cover('accepted')
    t.check('a cdd map of another size than the target, or an unknown cdd mode, is refused', usable)


# ---------------------------------------------------------------- bilinear
def bilinear(t, mode, case):
    """Any answer of the root finder gives weights between 0 and 1 that sum to one."""
    alpha, beta = t.real('alpha', -5, 5), t.real('beta', -5, 5)
    slats, slons = grid(5, 5, lat0=51.0, lon0=9.0, step=0.5)
    pts = [(a, b) for ra, rb in zip(slats, slons) for a, b in zip(ra, rb)]
    far = case == 'far'
    tlats = [[50.2, 50.0 if case == 'on' else 50.3], [49.7, 60.0 if far else 49.65]]
    tlons = [[10.2, 10.0 if case == 'on' else 10.4], [10.15, 40.0 if far else 10.45]]
    src = np.array([10.0 + 3 * i * i for i in range(25)])

    class Opt:
        @staticmethod
        def fsolve(f, x0, *a, **k):
            r = np.empty(2, dtype=object) if t.symbolic else np.empty(2)
            r[0], r[1] = alpha, beta
            return r
    if mode == 'triangulation':
        Opt = None
    conf = Config()
    with Scratch() as d, Patched(*([(sil, 'opt', Opt)] if Opt else [])):
        it = interpolator(d, mode, Target(tlats, tlons, mv=float('nan')), conf)
        out = it.interpolate(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), src, 'grid', GEO)
        tab = last_table()
        idx, co = np.array(tab['indexes'], copy=True), np.array(tab['coeffs'], copy=True)
    for i, (m, x) in enumerate(cells(out)):
        ws = list(co[i])
        if i == 3 and far:
            t.cover('far')
            t.check('outside is missing', missing(m, x))
            continue
        t.cover('inside')
        convex(t, mode, ws)
        if any(isnan(q) for q in ws):
            continue
        js = [int(j) for j in idx[i]]
        t.check('sources exist', all(0 <= j < 25 for j, q in zip(js, ws) if is_sym(q) or q != 0))
        t.eq('value', x, sum(q * src[j] for q, j in zip(ws, js) if is_sym(q) or q != 0))
        if i == 1 and case == 'on':
            t.cover('coincident')
            if mode != 'bilinear_delaunay':
                t.eq('coincident point takes its value', x, src[12])


# ---------------------------------------------------------------- GRIB library methods
def grib(t, mode):
    n = 4 if mode == 'grib_invdist' else 1
    dist = []
    for i in range(n):
        dist.append(t.real(f'd{i}', 0, 1e4))
    order = t.choice('neighbours', [[3, 0, 2, 4], [1, 4, 0, 2], [0, 1, 2, 3]])
    answers = {50.0: (dist, order)}
    calls = []

    def find(gid, lat, lon, is_lsm=False, npoints=1):
        calls.append((lat, lon))
        ds, ix = answers.get(round(lon - 10.0 + 50, 3), ([7.0, 8.0, 9.0, 11.0], [2, 3, 4, 0]))
        return [dict(distance=ds[j], index=ix[j], lat=0, lon=0, value=0) for j in range(npoints)]
    lats, lons = grid(1, 2)
    src = np.array([10.0 + 3 * i * i for i in range(5)])
    conf = Config()
    with Scratch() as d, Patched((eccodes, 'codes_grib_find_nearest', find)):
        it = interpolator(d, mode, Target(lats, lons, mv=float('nan')), conf)
        it.aux_for_intertable_generation(7, src, None, None)
        out = it.interpolate(None, None, src, 'grid', GEO, gid=7)
        tab = last_table()
    x = cells(out)[0][1]
    if mode == 'grib_nearest':
        t.cover('nearest')
        t.eq('nearest value', x, src[order[0]])
        return
    co = [np.asarray(tab['coeffs'])[j][0] for j in range(4)]
    convex(t, 'grib_invdist', co)
    zero = [j for j in range(4) if bool(dist[j] == 0)]
    if zero:
        t.cover('coincident')
        if len(zero) == 1:
            t.eq('coincident point takes its value', x, src[order[zero[0]]])
        return
    t.cover('interior')
    inv = [1.0 / q for q in dist]
    t.eq('value', x, sum(a * src[j] for a, j in zip(inv, order)) / sum(inv))


L = ['Interpolator.interpolate', 'Interpolator.interpolate_scipy', 'ScipyInterpolation.__init__/interpolate/interpolate_split']
CUSTOM = dict(weights_mode='OnlyTOP10', radius_ratio=0.5, min_num_of_station=3, m_const=2)
HARNESSES = [
    Harness('nearest', nearest, [{}], L + ['ScipyInterpolation._build_nn'], bounds='2 target cells, any distance and source spacing', stubs=['KDTree'], covers=['near', 'too far']),
    Harness('invdist', invdist, [{}], ['ScipyInterpolation._build_weights_invdist'], bounds='4 neighbours, any distances', stubs=['KDTree'],
            covers=['too far', 'coincident', 'interior']),
    Harness('adw', adw, [dict(groups='aaabbbbbccc'), dict(groups='aaaabbbbbbc'), dict(groups='abbbbbbbbcc'), dict(groups='aaaaaabbbbb', use_broadcasting=True)],
            ['adw_compute_weights_from_cutoff_distances', 'adw_and_cdd_compute_weights_directional_in_broadcasting', '_build_weights_invdist'],
            bounds='11 neighbours at up to 3 (thorough 4) distinct distances of any size', stubs=['KDTree'],
            covers=['coincident', 'radius of four neighbours', 'reference radius', 'radius of ten neighbours', 'all on the radius'],
            thorough_params=[dict(groups=g, use_broadcasting=b) for b in (False, True) for g in
                             ('aaabbbbbccc', 'aaaabbbbbbc', 'abbbbbbbbcc', 'aaaaaabbbbb', 'aabbbcccddd', 'aaabcccccdd', 'abbbcccccdd', 'aaaaaaaaabc')]),
    Harness('adw_coincident', adw_coincident, [{}], [], bounds='target on a source point', stubs=['KDTree'], covers=['coincident']),
    Harness('cdd', cdd, [dict(cmode='Hofstra', groups='aaabbbbbccc'), dict(cmode='Hofstra', groups='aabbbbbbbbb', use_broadcasting=True),
                         dict(cmode='MixHofstraShepard', groups='aaabbbbbbcc'), dict(cmode='MixHofstraShepard', groups='aabbbbbbbcc', options=CUSTOM),
                         dict(cmode='NewEtAl', groups='aaaaabbbbbb')],
            ['cdd_hofstra_compute_weights_from_cutoff_distances', 'cdd_hofstra_shepard_compute_weights_from_cutoff_distances', 'cdd_newetal_compute_weights_from_cutoff_distances'],
            bounds='11 neighbours at up to 3 distinct distances, any CDD radius at the cell', stubs=['KDTree', 'CDD map reader'],
            covers=['less than three stations', 'few stations', 'cdd radius', 'many stations', 'weights', 'no station']),
    Harness('cdd_unusable', cdd_unusable, [{}], ['ScipyInterpolation._build_weights_invdist', 'Interpolator.interpolate_scipy'],
            bounds='target of 2x2, cdd map of up to 4x3, the three modes and an unknown one, with and without splits', stubs=['KDTree', 'CDD map reader'],
            covers=['refused', 'accepted']),
    Harness('bilinear', bilinear, [dict(mode=m, case=c) for m in ('bilinear', 'bilinear_delaunay', 'triangulation') for c in ('inside', 'on', 'far')],
            ['_build_weights_bilinear', '_build_weights_triangulation'], bounds='5x5 source grid, 4 target points, any answer of the root finder',
            stubs=['scipy.optimize.fsolve'], covers=['inside', 'coincident', 'far']),
    Harness('grib', grib, [dict(mode='grib_nearest'), dict(mode='grib_invdist')], ['grib_nearest', 'grib_invdist', '_compute_coeffs_and_idxs', 'Interpolator.grib_nearest/grib_inverse_distance'],
            bounds='2 target cells, 4 neighbours at any distances', stubs=['eccodes.codes_grib_find_nearest'], covers=['nearest', 'coincident', 'interior']),
]
