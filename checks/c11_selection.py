"""C11: exactly the requested messages are used; handles are released once."""
from pyg2p.exceptions import NO_MESSAGES
import datetime
from engine.runner import Harness
from .run_common import *

ASSUMPTIONS = ['eccodes is an in-memory model: an index returns the messages whose index keys equal the selected values, in file order; files are read message by message']


def selection(t, indexable, keys, n):
    """keys: the keys requested besides the name"""
    with Scratch() as d:
        home = Home(d)
        msgs, request = [], []
        param = {}
        if 'level' in keys:
            level = t.choice('requested level', [500, 850])
            param['@level'] = str(level)
        opts = []
        if 'date' in keys:
            opts += ['-D', 20200102]
        if 'time' in keys:
            opts += ['-T', 1200]

        if 'member' in keys:
            opts += ['-m', t.choice('member', [0, 3])]
        lo = hi = None
        if 'steps' in keys:
            lo, hi = t.choice('steps', [(6, 12), (6, 6), (0, 6), (7, 12)])
            opts += ['-s', lo, '-e', hi]
        for i in range(n):
            kw = {}
            kw['shortName'] = t.choice(f'name{i}', ['tp', 'TP', 'tpvar', '2t', 'TPVAR'][:3 if i else 1] + (['2t'] if i else [])) if 'name' in keys else 'tp'
            if 'level' in keys:
                kw['level'] = t.choice(f'level{i}', [500, 850, 1])
            if 'date' in keys:
                kw['dataDate'] = t.choice(f'date{i}', [20200102, 20200101, 20200103])
            if 'time' in keys:
                kw['dataTime'] = t.choice(f'time{i}', [1200, 0, 600, 1230])
            if 'member' in keys:
                if t.flag(f'has member{i}'):
                    kw['perturbationNumber'] = t.int(f'member{i}', 0, 50)
            step = (6 * i, 6 * i + 6)
            if 'steps' in keys:
                step = t.choice(f'step{i}', [(0, 6 + 6 * i), (6 * i, 6 * i), (6 * i, 6 * i + 6)])
            vals = [t.real(f'v{i}_{j}', -1000, 1000) for j in range(2)]
            mask = [False, False]
            if keys == ('steps',):
                kw['dataTime'] = t.choice('time', [0, 30, 600, 1230, 1800]) if not i else msgs[0]['dataTime']
            if keys == ():
                kw['bitmapPresent'] = int(t.flag(f'bitmap{i}'))
                if kw['bitmapPresent']:
                    mask = [t.flag(f'missing{i}_{j}') for j in range(2)]
                    kw['bitmap'] = np.array([int(not m) for m in mask])
            m = message(arr(t, vals), step, **kw)
            m['_vals'], m['_mask'] = vals, mask
            msgs.append(m)
        # the messages of one run have distinct steps and levels
        keys_of = [(m['startStep'], m['endStep'], m['level']) for m in msgs]
        t.assume(len(set(keys_of)) == len(keys_of))
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs}, indexable)
        code, got = None, {}
        with Patched(*home.stubs(), *g.stubs(), *RecInterpolator([]).stubs(), *RecWriter([]).stubs()):
            ctx = context.ExecutionContext(home.argv(*opts, param=param))
            c = controller.Controller(ctx)
            try:
                got, mess, _ = c.execute(write_results=False)
            except ApplicationException as e:
                code = e.code
            c.close()

        def wanted(m):
            if m['shortName'] not in ('tp', 'TP', 'tpvar'):
                return False
            if 'level' in keys and m['level'] != level:
                return False
            if 'date' in keys and not m['dataDate'] == 20200102:
                return False
            if 'time' in keys and not m['dataTime'] == 1200:
                return False
            if 'member' in keys and not ('perturbationNumber' in m and bool(m['perturbationNumber'] == opts[opts.index('-m') + 1])):
                return False
            return True
        sel = [m for m in msgs if wanted(m)]
        if lo is not None:
            if lo == hi:
                sel = [m for m in sel if m['startStep'] == lo and m['endStep'] == hi]
            else:
                inside = [m for m in sel if m['startStep'] >= lo and m['endStep'] <= hi]
                # fields cumulated from the start of the forecast have start step 0
                sel = inside or ([m for m in sel if m['endStep'] <= hi] if lo > 0 else [])
        any_named = [m for m in msgs if m['shortName'] == 'tp' and ('member' not in keys or ('perturbationNumber' in m and bool(m['perturbationNumber'] == opts[opts.index('-m') + 1])))]
        t.check('every handle released exactly once', not g.live and g.obtained == g.released and not g.problems)
        t.check('every index released', not g.open_indexes)
        if not sel or not any_named:
            t.cover('nothing found')
            t.check('no message is reported as such', code == NO_MESSAGES)
            return
        if lo is None:
            # without -e the run ends at the last step of the parameter itself
            last = max(m['endStep'] for m in any_named)
            t.assume(all(m['endStep'] <= last for m in sel))
        t.cover('found')
        t.check('run goes on', code is None)
        if code is not None:
            return
        t.check('date and time of the data', mess.data_date == datetime.datetime.strptime('%d %04d' % (sel[0]['dataDate'], sel[0]['dataTime']), '%Y%m%d %H%M'))
        t.check('number of fields', len(got) == len(sel))
        for m in sel:
            f = [v for k, v in got.items() if (k.start_step, k.end_step, k.level) == (m['startStep'], m['endStep'], m['level'])]
            t.check('selected message gives one field', len(f) == 1)
            if len(f) == 1:
                for j, (miss, x) in enumerate(cells(f[0])):
                    t.check('missing exactly where the bitmap says', miss == m['_mask'][j])
                    if not miss:
                        t.eq('value of the message', x, m['_vals'][j])


def grid_id(t, indexable):
    """Reading the grid id of a geopotential file"""
    with Scratch() as d:
        home = Home(d)
        n = t.choice('messages', [1, 2, 3])
        msgs = [message(arr(t, [1.0, 2.0, 3.0][:2 + i % 2]), (0, 0), shortName=t.choice(f'name{i}', ['z', 'fis', 'tp', 'orog'])) for i in range(n)]
        home.gribs({'a.grb': msgs})
        g = Grib({'a.grb': msgs}, indexable)
        names = ['fis', 'z', 'FIS', 'orog']
        found = [m for m in msgs if m['shortName'] in names]
        code, gid = None, None
        with Patched(*home.stubs(), *g.stubs()):
            try:
                gid = rgrib.GRIBReader.get_id(d + '/a.grb', dict(shortName=names))
            except ApplicationException as e:
                code = e.code
            ids = {m['Ni']: pyg2p.GribGridDetails(g.new(m)).grid_id for m in found}
        t.check('every handle released exactly once', len(g.live) == len(found) and not g.problems and not g.open_indexes)
        if found:
            t.cover('id')
            t.check('id of a selected message', code is None and gid in ids.values())
        else:
            t.cover('no id')
            t.check('no message is reported as such', code == NO_MESSAGES)


KEYS = [(), ('name',), ('level', 'date'), ('time', 'member'), ('steps',), ('steps', 'level'), ('name', 'date')]
HARNESSES = [
    Harness('selection', selection, [dict(indexable=i, keys=k, n=3 if k != ('steps', 'level') else 2) for k in KEYS for i in (True, False)],
            ['Context.create_select_cmd_for_reader', 'ExecutionContext', 'GRIBReader.get_grib_info/select_messages/scan_grib/_find/close', 'Controller.init_execution/execute/close', 'Messages'],
            bounds='2 to 3 messages, every pattern of names, levels, members, steps; any dates, times, members; indexed or not',
            stubs=['eccodes (in-memory)', 'Interpolator', 'writers'], covers=['found', 'nothing found'],
            thorough_params=[dict(indexable=i, keys=k, n=3) for k in KEYS + [('level', 'date', 'time'), ('name', 'level', 'member')] for i in (True, False)]),
    Harness('grid id', grid_id, [dict(indexable=True), dict(indexable=False)], ['GRIBReader.get_id'], bounds='1 to 3 messages, every pattern of names', stubs=['eccodes (in-memory)'], covers=['id', 'no id']),
]
