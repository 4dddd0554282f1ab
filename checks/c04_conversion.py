"""C04: unit conversion and negative cut-off."""
import glob
from .run_common import *
from engine.core import ite, is_sym
from engine.lib import arr, cells
from engine.runner import Harness
from pyg2p import Messages, Step
from pyg2p.main.manipulation.conversion import Converter

ASSUMPTIONS = ['a converted value that happens to equal the missing value is not distinguished from a missing one']


def shipped():
    out = set()
    repo = os.environ.get('PYG2P_REPO', '/repo')
    for f in sorted(glob.glob(repo + '/configuration/global/parameters.json') + glob.glob(repo + '/configuration/parameters.json')):
        def walk(o):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k == '@function':
                        out.add(v)
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        walk(json.load(open(f)))
    return sorted(out)


EXTRA = ['x=x', 'x=x*(-0.13)**2', 'x=x/5466 - (x**2)', 'x=where(x>0, x, 0)', 'x=where(x==0, 1, x)', 'x=where(x<=5, 2*x, x)', 'x=where(x>=5, 2*x, -x)', 'x=2*x+1', 'x=abs(x)',
         'x=(x-32)*5/9', 'x=0*x+7', 'x=-x', 'x=where((x>1)&(x<3), x, -x)']


def reference(formula, x):
    """the formula evaluated at x, independently of numexpr (python evaluation)"""
    assert formula.startswith('x=')
    return eval(formula[2:], {'__builtins__': {}}, {'x': x, 'where': lambda c, a, b: ite(c, a, b) if is_sym(c) else (a if c else b), 'abs': abs})


def fields(t, names, mv, missing_values=True):
    d, src = {}, {}
    for i, n in enumerate(names):
        masked = t.flag(f'{n}.masked_array')
        vals, mask = [], []
        for c in range(2):
            kind = t.choice(f'{n}.{c}', ['valid', 'mv', 'masked'] if masked and c == 0 else (['valid', 'mv'] if c == 0 and missing_values else ['valid']))
            x = t.real(f'{n}.x{c}', -2000, 2000)
            t.assume(x != mv)
            vals.append(mv if kind == 'mv' else x)
            mask.append(kind == 'masked')
            src.setdefault(n, []).append((kind, x))
        d[Step(i, i + 1, 181, 1, 0)] = arr(t, vals, mask if masked else None)
    return d, src


def verify(t, out, src, names, mv, f):
    for n, (k, a) in zip(names, out.items()):
        cs = cells(a)
        t.check('shape', len(cs) == 2)
        for c, (m, y) in enumerate(cs):
            kind, x = src[n][c]
            if kind == 'masked':
                t.check('masked cell stays masked', m)
                t.cover('masked cell')
            elif kind == 'mv':
                t.check('missing value stays missing', True if m else y == mv)
                t.cover('missing value')
            else:
                t.check('valid cell stays valid', not m)
                t.eq('converted value', y, f(x))
                t.observe(f'{n}{c}', y)


def convert(t, formula, mv):
    two, cut = t.choice('second resolution, cut-off', [(False, False), (True, False), (True, True)])
    cv = Converter(func=formula, cut_off=cut)    # the conversion itself never cuts off
    first, s1 = fields(t, ['a', 'b'] if not two else ['a'], mv)
    if two:
        second, s2 = fields(t, ['c'], mv)
    else:
        second, s2 = {}, {}
    m = Messages(first, mv, 'K', 'surface', 'instant', '1', None, second or None, '20200101', '00')
    m.apply_conversion(cv)
    o1, o2 = m.first_resolution_values(), m.second_resolution_values()
    t.check('all messages kept', list(o1) == list(first) and list(o2) == list(second))
    f = lambda x: reference(formula, x)
    verify(t, o1, s1, ['a', 'b'] if not two else ['a'], mv, f)
    verify(t, o2, s2, ['c'] if second else [], mv, f)


def cutoff(t, mv, single):
    cv = Converter(func='x=x', cut_off=True)
    cv.set_missing_value(mv)
    d, src = fields(t, ['a', 'b'], mv, missing_values=False)
    neg = lambda x: ite(x < 0, 0, x) if is_sym(x) else max(x, 0)
    if single:
        res = {k: cv.cut_off_negative(v) for k, v in d.items()}
    else:
        res = cv.cut_off_negative(dict(d))
    t.check('all fields kept', list(res) == list(d))
    verify(t, res, src, ['a', 'b'], mv, neg)


CONVERSIONS = {'acc': ('x=x*2', 'False'), 'a': ('x=x-(3)', 'True'), 'ac': ('x=x', None), 'c': ('x=x+1', 'False')}


def run(t, through, wanted, aggregation, listed):
    """A whole run: the conversion of the commands file, the missing cells of each message and the cut-off at the end"""
    with Scratch() as d:
        home = Home(d)
        order = [wanted] if not listed else t.choice('order in configuration', [['acc', 'a', 'ac', 'c'], ['c', 'ac', 'a', 'acc'], ['ac', 'acc', 'c', 'a']])
        confs = []
        for k in order:
            c = {'@id': k, '@unit': 'u' + k, '@function': CONVERSIONS[k][0]}
            if CONVERSIONS[k][1]:
                c['@cutOffNegative'] = CONVERSIONS[k][1]
            confs.append(c)
        home.glob['parameters.json'] = {'tp': {'@shortName': 'tp', '@description': 'rain', '@unit': 'mm', 'Conversion': confs if listed else confs[0]}}
        two = t.flag('two resolutions')
        msgs, src = [], []
        for i in range(3):
            vals = [t.real(f'v{i}_{j}', -1000, 1000) for j in range(2)]
            kind = t.choice(f'missing{i}', ['none', 'bitmap', 'value'] if i < 2 else ['bitmap'])
            if kind != 'none':
                vals[i % 2] = 9999.0
            keys = dict(bitmapPresent=1, bitmap=np.array([int(j != i % 2) for j in range(2)])) if kind == 'bitmap' else {}
            m = message(arr(t, vals), (6 * i, 6 * i), **keys)
            if two and i == 2:
                m.update(Nj=2, Ni=1)
            msgs.append(m)
            src.append((vals, None if kind == 'none' else i % 2, kind))
        # a message with the missing value and no bitmap is not used in aggregations: their missing cells are those of bitmaps
        t.assume(not aggregation or all(k != 'value' for _, _, k in src))
        t.assume(not aggregation or not two)
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs})
        used, written = [], []
        agg = {'@step': 6, '@type': aggregation} if aggregation else None
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator(used).stubs(), *RecWriter(written).stubs()):
            if through == 'api':
                conf = dict(loggerLevel='ERROR', inputFile=d + '/a.grb', start=None, end=None, perturbationNumber=None, fmap=1, ext=1,
                            OutMaps=dict(cloneMap=d + '/clone.map', unitTime='6', Interpolation=dict(latMap=d + '/lat.map', lonMap=d + '/lon.map', mode='nearest')),
                            Parameter=dict(shortName='tp', applyConversion=wanted))
                if agg:
                    conf['Aggregation'] = {k[1:]: v for k, v in agg.items()}

                class Clone:
                    mv = -9999.0
                    values = np.ones(2)

                    def __init__(self, *a):
                        pass
                with Patched((api, 'PCRasterReader', Clone)):
                    api.Pyg2pApi(api.ApiContext(conf)).execute()
            else:
                ctx = context.ExecutionContext(home.argv(param={'@applyConversion': wanted}, out={'@format': 'pcraster', '@unitTime': '6'}, aggregation=agg))
                t.check('unit of the conversion', ctx.get('parameter.conversionUnit') == 'u' + wanted)
                c = controller.Controller(ctx)
                c.execute()
                c.close()
        formula, cut = CONVERSIONS[wanted]
        f = lambda x: reference(formula, x)
        neg = lambda x: (ite(x < 0, 0, x) if is_sym(x) else max(x, 0)) if cut == 'True' else x
        if aggregation == 'accumulation':
            exp = [([None if j in (src[i][1], src[i + 1][1]) else neg(f(src[i + 1][0][j]) - f(src[i][0][j])) for j in range(2)], src[i]) for i in range(2)]
        else:
            exp = [([None if j == m else neg(f(v[j])) for j in range(2)], k) for v, m, k in src]
        t.check('one field per message or period', len(used) == len(exp))
        t.cover(f'converted with {wanted}')
        for u, (want, kind) in zip(used, exp):
            cs = cells(u['v'])
            t.check('shape', len(cs) == 2)
            for (m, y), w in zip(cs, want):
                if w is None:
                    t.check('missing stays missing', True if m else y == 9999.0)
                else:
                    t.check('valid stays valid', not m)
                    t.eq('converted and cut off', y, w)


def runs():
    return [dict(through=h, wanted=w, aggregation=a, listed=l) for h in ('command', 'api') for w in CONVERSIONS for a in (None, 'accumulation') for l in (True, False)]


def jobs(mvs):
    return lambda: [dict(formula=f, mv=mv) for f in sorted(set(shipped()) | set(EXTRA)) for mv in mvs]


FN = ['pyg2p.main.manipulation.conversion.Converter.convert', 'Converter.__init__', 'pyg2p.Messages.apply_conversion']
HARNESSES = [
    Harness('convert', convert, jobs([9999.0]), FN, thorough_params=jobs([9999.0, -1.0, 0.0, -9999.0, 1e20]), stubs=['numexpr interpreter'],
            bounds='every formula shipped in configuration plus 13 others; 1-3 messages of two cells, values in [-2000,2000]; any of valid/missing value/masked',
            covers=['masked cell', 'missing value']),
    Harness('cutoff', cutoff, [dict(mv=9999.0, single=s) for s in (False, True)], ['Converter.cut_off_negative'], stubs=['numexpr interpreter'],
            bounds='two fields of two cells', covers=['masked cell']),
    Harness('run', run, runs, ['Controller.execute', 'ParametersConfiguration.get_conversion', 'ExecutionContext', 'ApiContext', 'GRIBReader.select_messages', 'Converter'],
            stubs=['eccodes (in-memory)', 'Interpolator', 'writers', 'numexpr interpreter'],
            bounds='three messages of two cells, each with a bitmap, the missing value or none; one or two resolutions; four conversions with similar names in three orders, or the only one; alone or accumulated; command and API',
            covers=['converted with a', 'converted with ac']),
]
