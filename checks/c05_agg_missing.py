"""C05: missing cells stay missing through the aggregation."""
from engine.lib import cells
from engine.runner import Harness
from .agg_common import *
from .c01_accumulation import F
from .c02_average import windows

ASSUMPTIONS = ['every field has all the messages it needs (as in C01-C03)']


def masker(t, steps_mask):
    def f(s):
        # a message without bitmap is a plain array
        p = t.choice(f'bitmap{s}', [None, '1000', '0110'] + (['0000'] if s == 2 else []))
        return p and [c == '1' for c in p]
    return f


def sources(kind, s, A, data, half, zero):
    """steps of the messages from which the field of the window ending at s is computed"""
    if kind == 'instantaneous':
        if s in data:
            return [s]
        return [] if s == 0 else [min(x for x in data if x > s)]
    if kind == 'accumulation':
        a = [] if zero and s - A == 0 else F(s - A, data, 0)[1]
        return sorted(set(a + F(s, data, 0)[1]))
    if half:
        return [x for x in data if s - A <= x <= s]
    return sorted({min(y for y in data if y >= h) for h in range(s - A + 1, s + 1)})


def body(t, kind, A, start, end, last, half=False, zero=False):
    steps = make_steps(t, last, always=(last,))
    st = 'accum' if kind == 'accumulation' else 'instant'
    vals, data = messages(t, steps, 4, masks=masker(t, None), accum=st == 'accum')
    if kind == 'average' and half:
        t.assume(all(any(s <= x <= s + A for x in steps) for s in windows(A, start, end)))
    out = aggregator(kind, A, start, end, step_type=st, half=half, zero=zero).do_manipulation(vals)
    for e, fs in by_end(out).items():
        for k, v in fs:
            src = sources(kind, e, A, data, half, zero)
            for c, (m, x) in enumerate(cells(v)):
                want = any(data[s][1][c] for s in src)
                if want:
                    t.cover('missing cell')
                t.check('missing exactly where a source message is missing', m == want)


def quick():
    out = []
    for zero in (False, True):
        out += [dict(kind='accumulation', A=A, start=s, end=e, last=4, zero=zero) for A, s, e in ((2, 0, 4), (2, 3, 4))]
        out += [dict(kind="accumulation", A=A, start=s, end=3, last=3, zero=zero) for A, s in ((1, 0), (1, 2), (2, 2), (3, 3), (3, 0))]
    out += [dict(kind='average', A=A, start=s, end=4, last=4, half=h) for A, s in ((2, 0), (4, 4)) for h in (False, True)]
    out += [dict(kind='instantaneous', A=A, start=s, end=4, last=4) for A, s in ((1, 0), (3, 1))]
    out += [dict(kind="average", A=A, start=s, end=3, last=3, half=h) for A, s in ((3, 3), (2, 2), (2, 3)) for h in (False, True)]
    out += [dict(kind="instantaneous", A=A, start=s, end=3, last=3) for A, s in ((1, 0), (2, 0), (2, 3), (3, 1))]
    return out


def thorough():
    out = []
    for last in (5,):
        for A in range(1, 6):
            for s in range(0, last + 1):
                if s == 0 or s >= A:
                    out += [dict(kind='accumulation', A=A, start=s, end=last, last=last, zero=z) for z in (False, True)]
                    if (s and s >= A) or (last + 1) % A:
                        out += [dict(kind='average', A=A, start=s, end=last, last=last, half=h) for h in (False, True)]
                out.append(dict(kind='instantaneous', A=A, start=s, end=last, last=last))
    return out


FN = FUNCTIONS + ['Aggregator._accumulation', 'Aggregator._average', 'Aggregator._instantaneous', 'Aggregator._find_start']
HARNESSES = [Harness('masks', body, quick, FN, thorough_params=thorough,
                     bounds='message steps: every subset of 0..4 (0..5 thorough) with the last; per message: no bitmap, or the bitmap 1000, 0110 (or 0000) of four cells',
                     stubs=['numexpr interpreter'], covers=['missing cell'])]
