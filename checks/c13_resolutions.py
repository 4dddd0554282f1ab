"""C13: with two resolutions each field uses its own grid and none is lost."""
import itertools
from engine.runner import Harness
from .run_common import *

ASSUMPTIONS = ['the second resolution starts with a message at the last step of the first one (overlapping files) when fields are aggregated, as the README asks',
               'the change of resolution is at a multiple of the aggregation step', 'interpolation and map files are stand-ins that record what they are given']
SHAPES = {1: 2, 2: 3}


def two(t, aggregation, kind, files, fmt, through, half=None):
    """A run over two resolutions"""
    A = 6
    # messages in the middle of the periods too, for weighted means
    sub = half is not None
    with Scratch() as d:
        home = Home(d)
        n1 = t.choice('messages of the first', [1, 2] if aggregation else [1, 2])
        n2 = t.choice('messages of the second', [1, 2, 3] if aggregation else [1, 2])
        overlap = True if aggregation else t.flag('overlap')
        T = A * n1
        ends1 = [A * (i + 1) for i in range(n1)]
        ends2 = [T + A * i + (0 if overlap else A) for i in range(n2)]
        if sub:
            ends1 = sorted(ends1 + [e - 3 for e in ends1])
            ends2 = sorted(ends2 + [e + 3 for e in ends2[:-1]])
        t.assume(ends2[-1] > T or not aggregation or n2 == 1)
        def msg(res, e):
            vals = [t.real(f'r{res} v{e}_{j}', -1000, 1000) for j in range(SHAPES[res])]
            m = message(arr(t, vals), (0 if kind == 'cumulated' else e, e), Nj=res, Ni=SHAPES[res], stepType={'cumulated': 'accum', 'instant': 'instant'}[kind])
            m['latitudes'] = np.full(SHAPES[res], 10.0 * res)
            m['_vals'], m['_res'] = vals, res
            return m
        m1 = [msg(1, e) for e in ends1]
        m2 = [msg(2, e) for e in ends2]
        opts = []
        if t.flag('-e given'):
            opts += ['-e', max(ends1 + ends2)]
        if files == 2:
            back = t.choice('file order', ['by step', 'reversed'])
            src = {'a.grb': m1 if back == 'by step' else m1[::-1], 'b.grb': m2 if back == 'by step' else m2[::-1]}
            opts += ['-I', d + '/b.grb']
        else:
            both = m1 + m2
            k = t.choice('file order', ['by step', 'reversed', 'interleaved'])
            # the first message of the file says which resolution is the main one
            rest = both[1:]
            rest = rest if k == 'by step' else rest[::-1] if k == 'reversed' else [rest[i] for i in sorted(range(len(rest)), key=lambda i: (i % 2, i))]
            src = {'a.grb': both[:1] + rest}
        home.gribs(src)
        g = Grib(src)
        used, written = [], []
        rec = RecInterpolator(used, (lambda v: v[:2].copy()) if fmt == 'netcdf' else None)
        w = RecWriter(written)
        agg = {'@step': A, '@type': aggregation} if aggregation else None
        if sub:
            agg['@halfweights'] = half
        with Patched(*home.stubs(), *g.stubs(), *rec.stubs(), *w.stubs()):
            if through == 'api':
                out = api_run(home, d, agg, opts)
                names = [k.end_step for k in out]
                fields = list(out.values())
            else:
                ctx = context.ExecutionContext(home.argv(*opts, aggregation=agg, out={'@format': fmt, '@unitTime': str(A)}))
                c = controller.Controller(ctx)
                c.execute()
                c.close()
            ids = {r: pyg2p.GribGridDetails(g.new(m)).grid_id for r, m in ((1, m1[0]), (2, m2[0]))}
        # expected fields
        exp = []
        if not aggregation:
            exp = [(m['endStep'], m['_res'], m['_vals']) for m in m1 + m2]
            exp.sort(key=lambda x: x[0])
        else:
            at = {(m['_res'], m['endStep']): m['_vals'] for m in m1 + m2}
            at[1, 0] = [0.0] * SHAPES[1]
            first = A if aggregation != 'instantaneous' else 0
            for e in range(first, max(ends1 + ends2) + 1, A):
                r = 1 if e <= T else 2
                if aggregation == 'accumulation':
                    exp.append((e, r, [b - a for a, b in zip(at[r, e - A], at[r, e])]))
                elif sub:
                    # the middle of the window and its borders; nothing is read at hour 0
                    w = {e - A: 0.5 if e > A else 0, e - 3: 1.0, e: 0.5} if half else {e - 3: 0.5, e: 0.5}
                    exp.append((e, r, [sum(at[r, x][j] * k for x, k in w.items()) / sum(w.values()) for j in range(SHAPES[r])]))
                else:
                    exp.append((e, r, at[r, e]))
        t.cover('second resolution' if any(r == 2 for _, r, _ in exp) else 'first only')
        calls = [u for u in used if 'v' in u]
        t.check('one interpolation per field, none lost or repeated', len(calls) == len(exp))
        if len(calls) != len(exp):
            return
        for u, (e, r, vals) in zip(calls, exp):
            t.check('field of the period, in step order', len(cells(u['v'])) == len(vals))
            if len(cells(u['v'])) == len(vals):
                for (m, x), y in zip(cells(u['v']), vals):
                    t.check('no missing value', not m)
                    t.eq('value', x, y)
            t.check('grid id of its own resolution', u['grid_id'] == ids[r])
            t.check('coordinates of its own resolution', len(u['lats']) == SHAPES[r] and float(u['lats'][0]) == 10.0 * r)
            t.check('grid details of its own resolution', u['geo'].grid_id == ids[r] if u['geo'] is not None else False)
            t.check('told which resolution it is', bool(u['second']) == (r == 2))
        if through == 'api':
            t.check('steps in order', names == [e for e, _, _ in exp] and len(fields) == len(exp))
        elif fmt == 'netcdf':
            t.check('one netCDF file', len(written) == 2 and written[0][0] == 'init')
            if len(written) == 2:
                a, k = written[1]
                t.check('all fields, with their times', np.shape(a[0]) == (len(exp), 2) and [int(x) for x in a[1]] == [e for e, _, _ in exp])
                if np.shape(a[0]) == (len(exp), 2):
                    for row, (e, r, vals) in zip(a[0], exp):
                        for x, y in zip(row, vals):
                            t.eq('value in the file', x, y)
        elif fmt == 'pcraster':
            t.check('one map per field in order', [len(a[1]) for a, _ in written] == [SHAPES[r] for _, r, _ in exp])


def api_run(home, d, agg, opts):
    u = json.load(open(home.commands()))['Execution']
    conf = dict(loggerLevel='ERROR', inputFile=d + '/a.grb', start=None, end=None, perturbationNumber=None, fmap=1, ext=1,
                OutMaps=dict(cloneMap=d + '/clone.map', unitTime='6', Interpolation=dict(latMap=d + '/lat.map', lonMap=d + '/lon.map', mode='nearest')), Parameter=dict(shortName='tp'))
    if '-s' in opts:
        conf['start'] = opts[opts.index('-s') + 1]
    if '-e' in opts:
        conf['end'] = opts[opts.index('-e') + 1]
    if '-I' in opts:
        conf['inputFile2'] = opts[opts.index('-I') + 1]
    if agg:
        conf['Aggregation'] = {k[1:]: v for k, v in agg.items()}
    mask = np.zeros(1, dtype=bool)

    class Clone:
        mv = -9999.0
        values = np.ones(1)

        def __init__(self, *a):
            pass
    with Patched((api, 'PCRasterReader', Clone)):
        return api.Pyg2pApi(api.ApiContext(conf)).execute()


CASES = [dict(aggregation=a, kind=k, files=f, fmt='pcraster', through=h) for a, k in ((None, 'instant'), (None, 'cumulated'), ('accumulation', 'instant'), ('accumulation', 'cumulated'), ('average', 'instant'), ('instantaneous', 'instant'))
         for f in (1, 2) for h in ('command', 'api')]
CASES += [dict(c, fmt='netcdf') for c in CASES if c['through'] == 'command']
CASES += [dict(aggregation='average', kind='instant', files=f, fmt='pcraster', through='command', half=h) for f in (1, 2) for h in (True, False)]
HARNESSES = [
    Harness('two resolutions', two, CASES, ['Controller.execute/second_res_manipulation/read_2nd_res_messages', 'GRIBReader.select_messages', 'Messages.append_2nd_res_messages', 'OutputWriter._write_maps_pcraster/_write_maps_netcdf', 'Pyg2pApi.execute'],
            bounds='1-2 messages at the first, 1-3 at the second resolution, overlapping or not, stored in three orders, one or two files, with and without -e; averages (half weights or not) with messages in the middle of the windows too; any values',
            stubs=['eccodes (in-memory)', 'Interpolator', 'writers'], covers=['second resolution', 'first only']),
]