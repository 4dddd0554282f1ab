"""C01: accumulated maps are exact period differences for any step layout."""
from engine.lib import cells
from engine.runner import Harness
from .agg_common import *

ASSUMPTIONS = ['the accumulated variable is measured from step 0 (messages hold totals since the start of the run); '
               'every window end is covered by a message at or after it']


def F(s, data, c):
    """Reference: (value, contributing steps) of the accumulated variable at step s."""
    if s in data:
        return data[s][0][c], [s]
    if s == 0:
        return 0.0, []
    before = [x for x in data if x < s]
    after = min(x for x in data if x > s)
    if before:
        b = max(before)
        vb, src = data[b][0][c], [b, after]
    else:
        b, vb, src = 0, 0.0, [after]
    return vb + (data[after][0][c] - vb) * (s - b) / (after - b), src


def body(t, A, start, end, last, zero, unit):
    steps = make_steps(t, last, always=(last,))
    vals, data = messages(t, steps)
    u = unit if unit is not None else t.int('unit', 1, 48)
    instep = t.choice('input step', [1, 24])
    agg = aggregator('accumulation', A, start, end, unit=1, zero=zero, instep=instep)
    agg._unit_time = u
    out = agg.do_manipulation(vals)
    first = start if start else A
    want = list(range(first, end + 1, A))
    got = by_end(out)
    t.check('one field per window', sorted(got) == want and all(len(v) == 1 for v in got.values()))
    if len(want) > 1 and 0 not in data:
        t.cover('several windows, zero step absent')
    if any(w not in data for w in want):
        t.cover('interpolated window end')
    for w in want:
        if w not in got:
            continue
        k, v = got[w][0]
        t.check('window start in the key', int(k.start_step) == w - A)
        t.check('resolution and level kept', k.resolution == RES and k.level == LEV)
        cs = cells(v)
        t.check('shape kept', len(cs) == 2)
        for c, (m, x) in enumerate(cs):
            f0 = 0.0 if (zero and w - A == 0) else F(w - A, data, c)[0]
            t.check('valid cell stays valid', not m)
            t.eq('value', x, (F(w, data, c)[0] - f0) * u / A)
            t.observe(f'{w}.{c}', x)


def params():
    out = []
    for last, A, start, end in [(6, 1, 0, 4), (6, 2, 0, 6), (6, 2, 2, 6), (6, 2, 3, 5), (6, 3, 0, 6), (6, 3, 3, 6), (6, 3, 4, 6), (7, 3, 0, 6),
                                (6, 4, 0, 4), (6, 4, 5, 6), (6, 6, 0, 6), (6, 6, 6, 6), (5, 1, 2, 5)]:
        for zero in (False, True):
            out.append(dict(A=A, start=start, end=end, last=last, zero=zero, unit=None if A != 3 else 24))
    return out


def thorough():
    out = []
    for last in (6, 8):
        for A in range(1, last + 1):
            for start in [0] + list(range(A, last + 1)):
                for zero in (False, True):
                    out.append(dict(A=A, start=start, end=last, last=last, zero=zero, unit=None))
                    if start < last - 1:
                        out.append(dict(A=A, start=start, end=last - 1, last=last, zero=zero, unit=24))
    return out


HARNESSES = [Harness('accumulation', body, params, FUNCTIONS + ['Aggregator._accumulation'], thorough_params=thorough,
                     bounds='message steps: every subset of 0..7 (0..8 thorough) containing the last step; A in 1..6 (1..8); two cells, values any real in [-1000,1000]; unit 1..48; input step 1 or 24',
                     stubs=['numexpr interpreter'], covers=['several windows, zero step absent', 'interpolated window end'], validate=4)]
