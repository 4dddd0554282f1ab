"""C12: step information does not depend on message order."""
import itertools
from engine.runner import Harness
from engine.lib import int_texts, t_and, t_or
from .run_common import *

ASSUMPTIONS = ['eccodes is an in-memory model; at most two time resolutions']


def steps(t, kind, n, indexable, dup):
    """n ordered steps with any spacing, in any order in the file"""
    with Scratch() as d:
        home = Home(d)
        ends = [t.int('end0', 0 if kind == 'instant' else 1, 24)]
        for i in range(1, n):
            ends.append(ends[-1] + t.int(f'gap{i}', 1, 24))
        if kind == 'instant':
            starts = list(ends)
        elif kind == 'cumulated':
            starts = [0] * n if not t.symbolic else [t.int('zero', 0, 0)] * n
        else:
            first = t.int('first', 0, 24)
            t.assume(first < ends[0])
            starts = [first] + ends[:-1]
        order = t.choice('order', list(itertools.permutations(range(n)))) if n > 1 else (0,)
        order = list(order) + ([order[t.choice('repeated', range(n))]] if dup else [])
        msgs = [message(arr(t, [float(i), 1.0]), (starts[i], ends[i]), level=1 + 10 * (k >= n), dataDate=20200101) for k, i in enumerate(order)]
        if t.flag('another parameter first'):
            msgs.insert(0, message(arr(t, [0.0, 1.0]), (t.int('other start', 0, 200), t.int('other end', 0, 200)), shortName='2t'))
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs}, indexable)
        with Patched(*home.stubs(), *g.stubs()):
            r = rgrib.GRIBReader(d + '/a.grb')
            info = r.get_grib_info({'shortName': 'tp'})
            r.close()
        t.eq('start: the smallest start step', info.start, starts[0])
        t.eq('end: the largest end step', info.end, ends[-1])
        t.eq('input step', info.input_step, ends[1] - ends[0] if n > 1 else ends[0] - starts[0])
        change = None
        for i in range(2, n):
            if bool(ends[i] - ends[i - 1] != ends[1] - ends[0]):
                change = i
                break
        got = int_texts(info.change_step_at)
        if change is None:
            t.cover('one time resolution')
            t.eq('no second input step', info.input_step2, -1)
            t.check('no change of time resolution', got == [])
        else:
            t.cover('two time resolutions')
            t.eq('second input step', info.input_step2, ends[change] - ends[change - 1])
            t.check('place of the change', len(got) == 2)
            if len(got) == 2:
                t.eq('start of the first step at the second resolution', got[0], starts[change])
                t.eq('end of the first step at the second resolution', got[1], ends[change])
        t.check('handles released', not g.live and not g.problems)


def steps_of_fields(t, kind, n):
    """The input step carried by each field"""
    with Scratch() as d:
        home = Home(d)
        gaps = [t.choice(f'gap{i}', [3, 6]) for i in range(1, n)]
        t.assume(all(b >= a for a, b in zip(gaps, gaps[1:])))
        ends = [gaps[0]]
        for x in gaps:
            ends.append(ends[-1] + x)
        starts = ends if kind == 'instant' else [0] * n if kind == 'cumulated' else [0] + ends[:-1]
        order = t.choice('order', list(itertools.permutations(range(n))))
        vals = [t.real(f'v{i}', -1000, 1000) for i in range(n)]
        msgs = [message(arr(t, [vals[i], 1.0]), (starts[i], ends[i])) for i in order]
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs})
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator([]).stubs(), *RecWriter([]).stubs()):
            c = controller.Controller(context.ExecutionContext(home.argv()))
            got, mess, _ = c.execute(write_results=False)
            c.close()
        t.check('fields in increasing step order', [k.end_step for k in got] == ends)
        change = next((i for i in range(2, n) if ends[i] - ends[i - 1] != ends[1] - ends[0]), n)
        t.cover('change' if change < n else 'no change')
        for i, (k, v) in enumerate(got.items()):
            t.check('own steps', (k.start_step, k.end_step) == (starts[i], ends[i]))
            t.eq('own value', v[0], vals[i])
            t.check('input step of the field', k.input_step == (ends[1] - ends[0] if i < change else ends[change] - ends[change - 1]))


KINDS = ['instant', 'cumulated', 'interval']
HARNESSES = [
    Harness('steps', steps, [dict(kind=k, n=n, indexable=True, dup=u) for k in KINDS for n in (1, 2, 3, 4) for u in (False, True) if not (n == 4 and u)] + [dict(kind='instant', n=3, indexable=False, dup=True)],
            ['GRIBReader.get_grib_info', 'GRIBReader._find_start_end_steps', 'GRIBReader.scan_grib'], bounds='1 to 4 messages in every order, any steps up to 24 h apart, one of them repeated on another level',
            stubs=['eccodes (in-memory)'], covers=['one time resolution', 'two time resolutions'], exact_strings='tokens',
            thorough_params=[dict(kind=k, n=n, indexable=i, dup=u) for k in KINDS for n in (1, 2, 3, 4, 5) for i in (True, False) for u in (False, True) if not (n == 5 and (u or not i))]),
    Harness('fields', steps_of_fields, [dict(kind=k, n=n) for k in KINDS for n in (3, 4)], ['GRIBReader.select_messages', 'Controller.execute'],
            bounds='3 to 4 messages in every order, spacings 3 and 6 h', stubs=['eccodes (in-memory)', 'Interpolator', 'writers'], covers=['change', 'no change'],
            thorough_params=[dict(kind=k, n=n) for k in KINDS for n in (3, 4, 5)]),
]
