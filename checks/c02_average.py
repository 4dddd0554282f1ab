"""C02: average windows weigh each hour once (or with half weights)."""
from engine.lib import cells
from engine.runner import Harness
from .agg_common import *
from .run_common import *
from .c13_resolutions import api_run

ASSUMPTIONS = ['without half weights every hour of a window has a message at or after it; with half weights every closed window holds at least one message']


def windows(A, start, end, second=False):
    first = start if (start == 0 or second) else start - A
    return [s for s in range(first, end + 1, A) if s + A <= end]


def body(t, A, start, end, last, half, second=False, kind='instant'):
    wins = windows(A, start, end, second)
    if half:
        steps = make_steps(t, last)
        t.assume(all(any(s <= x <= s + A for x in steps) for s in wins))
    else:
        steps = make_steps(t, last, always=(last,))
    vals, data = messages(t, steps, accum=False)
    agg = aggregator('average', A, start, end, step_type=kind, half=half, second=second)
    out = agg.do_manipulation(vals)
    got = by_end(out)
    t.check('one field per window', sorted(got) == [s + A for s in wins] and all(len(v) == 1 for v in got.values()))
    for s in wins:
        if s + A not in got:
            continue
        k, v = got[s + A][0]
        t.check('window start in the key', int(k.start_step) == s and k.resolution == RES and k.level == LEV)
        cs = cells(v)
        t.check('shape kept', len(cs) == 2)
        if half:
            w = {x: (0.5 if x in (s, s + A) else 1.0) for x in data if s <= x <= s + A}
            if len(w) == 1:
                t.cover('single message in the window')
        else:
            w = {}
            for h in range(s + 1, s + A + 1):
                x = min(y for y in data if y >= h)
                w[x] = w.get(x, 0) + 1
                if x > s + A:
                    t.cover('message after the window used')
        tot = sum(w.values())
        for c, (m, x) in enumerate(cs):
            t.check('valid cell stays valid', not m)
            t.eq('value', x, sum(data[y][0][c] * wt for y, wt in w.items()) / tot)
            t.observe(f'{s}.{c}', x)


def ok(p):
    """the window that ends one step after the end step (see the known finding) has its own harness"""
    return not ((p['start'] == 0 or p.get('second')) and (p['end'] + 1 - p['start']) % p['A'] == 0)


def grid(lasts, As):
    for last in lasts:
        for A in As:
            if A > last:
                continue
            for start in range(0, last):
                if start and start < A:
                    continue
                for second in ((False, True) if start else (False,)):
                    for end in ((last,) if start else (last, last - 1)):
                        p = dict(A=A, start=start, end=end, last=last, second=second)
                        if ok(p) and end >= A + (start if second else 0):
                            yield p


def plain():
    return [dict(p, half=False) for p in grid((6,), (1, 2, 3, 4, 6))] + [dict(A=3, start=3, end=6, last=7, half=False, kind='avg')]


def half():
    return [dict(p, half=True) for p in grid((6,), (1, 2, 3, 4, 6))]


def extra(t, A, end, half):
    """A window may not run past the end step."""
    vals, data = messages(t, range(0, end + 1), accum=False, ncell=1)
    out = aggregator('average', A, 0, end, step_type='instant', half=half).do_manipulation(vals)
    t.check('no window past the end step', all(k.end_step <= end for k in out))


def run(t, through, half):
    """Whole runs: half weights as asked in the commands file or in the dictionary of the API"""
    A = t.choice('aggregation step', [6, 3])
    with Scratch() as d:
        home = Home(d)
        ends = t.choice('messages at', [(0, 3, 6, 9, 12), (0, 1, 4, 6, 9, 12), (3, 6, 8, 12)])
        data = {e: [t.real(f'v{e}_{j}', -1000, 1000) for j in range(2)] for e in ends}
        src = {'a.grb': [message(arr(t, v), (e, e)) for e, v in data.items()]}
        home.gribs(src)
        g, used, written = Grib(src), [], []
        agg = {'@step': A, '@type': 'average'}
        if half is not None:
            agg['@halfweights'] = half
        # from the first window on, as windows that start at 0 run past the end (see the known finding)
        opts = ['-s', A]
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator(used).stubs(), *RecWriter(written).stubs()):
            if through == 'api':
                api_run(home, d, agg, opts)
            else:
                c = controller.Controller(context.ExecutionContext(home.argv(*opts, aggregation=agg, out={'@format': 'pcraster'})))
                c.execute()
                c.close()
        wins = list(range(0, 12, A))
        t.check('one field per window', len(used) == len(wins))
        t.cover('averaged')
        for u, s in zip(used, wins):
            if half:
                w = {e: (0.5 if e in (s, s + A) else 1.0) for e in ends if s <= e <= s + A}
            else:
                w = {}
                for h in range(s + 1, s + A + 1):
                    e = min(x for x in ends if x >= h)
                    w[e] = w.get(e, 0) + 1
            for j, (m, x) in enumerate(cells(u['v'])):
                t.check('valid cell stays valid', not m)
                t.eq('value', x, sum(data[e][j] * k for e, k in w.items()) / sum(w.values()))


def matches_finding(k, v):
    return k['id'] == 'average-window-past-end' and v['harness'] == 'past_end' and (
        v['label'] == 'no window past the end step' or v['label'] == 'unexpected exception' and 'IndexError' in v['fails'][0][1])


FN = FUNCTIONS + ['Aggregator._average']
HARNESSES = [
    Harness('average', body, plain, FN, thorough_params=lambda: [dict(p, half=False) for p in grid((7, 9), range(1, 9))],
            bounds='message steps: every subset of 0..6 (0..9 thorough) with the last step; A 1..6 (1..8); two cells, any real values',
            stubs=['numexpr interpreter'], covers=['message after the window used']),
    Harness('halfweights', body, half, FN, thorough_params=lambda: [dict(p, half=True) for p in grid((7, 8), range(1, 9))],
            bounds='message steps: every subset of 0..6 (0..8 thorough) with a message in each window; A 1..6 (1..8)',
            stubs=['numexpr interpreter'], covers=['single message in the window']),
    Harness('past_end', extra, [dict(A=1, end=3, half=False), dict(A=4, end=3, half=False), dict(A=4, end=3, half=True), dict(A=2, end=5, half=False)], FN,
            bounds='hourly messages 0..end, start 0, end+1 a multiple of A', stubs=['numexpr interpreter']),
    Harness('run', run, [dict(through=h, half=x) for h in ('command', 'api') for x in (True, False, None)], ['ExecutionContext', 'ApiContext', 'Controller.execute', 'Aggregator._average'],
            bounds='messages at three sets of steps to 12, windows of 3 and 6 hours, any values; half weights asked, refused or not mentioned; command and API', stubs=['eccodes (in-memory)', 'Interpolator', 'writers', 'numexpr interpreter'], covers=['averaged']),
]
