"""C14: output maps are numbered in step order and never overwrite each other."""
import itertools
from engine.runner import Harness
from engine.lib import text_eq, t_not
from .run_common import *

ASSUMPTIONS = ['prefix and number fit into eleven characters', 'the map writer is a stand-in that records names and values']


def expected(out, prefix, n):
    digits = f'{n:01d}' if not isinstance(n, int) else str(n)
    name = prefix + '0' * (11 - len(prefix) - len(digits)) + digits
    return out + name[:8] + '.' + name[8:]


def names(t, count, prefix_len, big):
    with Scratch() as d:
        home = Home(d)
        prefix = 'prefixabcde'[:prefix_len]
        vals = [t.real(f'v{i}', -1000, 1000) for i in range(count)]
        order = t.choice('file order', list(itertools.permutations(range(count)))) if count <= 3 else t.choice('file order', [tuple(range(count)), tuple(reversed(range(count)))])
        msgs = [message(arr(t, [vals[i], 1.0]), (6 * i, 6 * i)) for i in order]
        home.gribs({'a.grb': msgs})
        g, log = Grib({'a.grb': msgs}), []
        fmap, ext = t.int('first map', 0, big), t.int('extension step', 1, big)
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator([]).stubs(), *RecWriter(log).stubs()):
            sep = t.choice('output folder', ['', '/'])
            out = d + '/out'
            ctx = context.ExecutionContext(home.argv('-n', prefix, '-o', out + sep) if prefix else home.argv('-o', out + sep, param={'@shortName': 'tp'}))
            ctx['outMaps.fmap'], ctx['outMaps.ext'] = fmap, ext
            prefix = prefix or 'tp'
            last = fmap + (count - 1) * ext
            t.assume(last < 10 ** (11 - len(prefix)))
            c = controller.Controller(ctx)
            c.execute()
            c.close()
        t.cover('written')
        t.check('one map per field', len(log) == count)
        got = [a[0] for a, _ in log]
        for i, (a, k) in enumerate(log):
            t.eq('maps in increasing step order', cells(a[1])[0][1], vals[i])
            t.check('folder, prefix, zeros and number in 8.3 form', text_eq(str(a[0]), expected(d + '/out/', prefix, fmap + i * ext)))
        for i in range(count):
            for j in range(i):
                t.check('distinct maps have distinct names', t_not(text_eq(got[i], got[j])))


HARNESSES = [
    Harness('names', names, [dict(count=c, prefix_len=p, big=b) for c, p, b in ((1, 3, 10 ** 8), (2, 0, 10 ** 6), (3, 1, 999), (3, 4, 10 ** 4), (2, 7, 10 ** 4), (2, 8, 999), (2, 9, 99), (3, 10, 9), (2, 10, 9))],
            ['OutputWriter._name_pcr_map', 'OutputWriter._write_maps_pcraster', 'Controller.execute'], bounds='1 to 3 maps in any file order, prefixes of 0 to 10 characters, any first map and extension step that fit',
            stubs=['eccodes (in-memory)', 'Interpolator', 'writers'], covers=['written'], exact_strings='digits',
            thorough_params=[dict(count=c, prefix_len=p, big=10 ** min(9, 11 - p) - 1) for c in (1, 2, 3, 5) for p in range(0, 11) if not (c == 5 and p < 4)]),
]
