"""C03: instantaneous maps."""
from engine.lib import cells
from engine.runner import Harness
from .agg_common import *

ASSUMPTIONS = ['every requested step has a message at or after it (or is step 0)']


def body(t, A, start, end, last, kind, instep=1):
    steps = make_steps(t, last, always=(last,))
    vals, data = messages(t, steps, accum=False)
    out = aggregator('instantaneous', A, start, end, step_type=kind, instep=instep).do_manipulation(vals)
    got = by_end(out)
    keys = sorted(got)
    first = start + instep if kind == 'avg' else (start - A if start > A else start)
    want = list(range(first, end + 1, A))
    t.check('one field per step', keys == want and all(len(v) == 1 for v in got.values()))
    for s in want:
        if s not in got:
            continue
        k, v = got[s][0]
        t.check('key', int(k.start_step) == s and k.resolution == RES and k.level == LEV)
        if s in data:
            ref = data[s][0]
        elif s == 0:
            ref = [0.0, 0.0]
            t.cover('absent step 0')
        else:
            ref = data[min(x for x in data if x > s)][0]
            t.cover('absent step')
        cs = cells(v)
        t.check('shape kept', len(cs) == 2)
        for c, (m, x) in enumerate(cs):
            t.check('valid cell stays valid', not m)
            t.eq('value', x, ref[c])
            t.observe(f'{s}.{c}', x)


def refused(t, kind):
    steps = make_steps(t, 3, always=(3,))
    vals, data = messages(t, steps, accum=True)
    before = {k: [c for c in cells(v)] for k, v in vals.items()}
    try:
        aggregator(kind, t.choice('A', [1, 2, 3]), t.choice('start', [0, 1, 2]), 3, step_type='accum', half=t.flag('half')).do_manipulation(vals)
    except ApplicationException as ex:
        t.cover('refused')
        t.check('application error', True)
    else:
        t.check('refused with an application error', False)


def grid(lasts, As):
    out = []
    for last in lasts:
        for A in As:
            for start in range(0, last + 1):
                out.append(dict(A=A, start=start, end=last, last=last, kind='instant'))
                if start + 1 <= last:
                    out.append(dict(A=A, start=start, end=last, last=last, kind='avg', instep=1))
                if start + 2 <= last:
                    out.append(dict(A=A, start=start, end=last - 1, last=last, kind='avg', instep=2))
    return out


FN = FUNCTIONS + ['Aggregator._instantaneous', 'Aggregator._find_start']
HARNESSES = [
    Harness('instantaneous', body, lambda: grid((5,), (1, 2, 3, 5)), FN, thorough_params=lambda: grid((6, 8), range(1, 8)),
            bounds='message steps: every subset of 0..5 (0..8 thorough) with the last step; A 1..5 (1..7)', stubs=['numexpr interpreter'],
            covers=['absent step', 'absent step 0']),
    Harness('refused', refused, [dict(kind='average'), dict(kind='instantaneous')], FN + ['Aggregator._average'], bounds='messages any subset of 0..3',
            covers=['refused']),
]
