"""C21: commands built through the API carry exactly the options they were given."""
from pathlib import Path
from engine.runner import Harness
from engine.text import same_text, text
from .run_common import *

ASSUMPTIONS = ['arbitrary characters of values are digits and letters; blanks, path and brace characters, quotes, = and - occur at fixed places', 'the short and the long name of one option are not mixed in one command']
VALUED = {'-c': 'cmdpath', '-i': 'inputfile', '-I': 'second_input_file', '-m': 'eps', '-e': 'tend', '-s': 'tstart', '-T': 'datatime', '-D': 'datadate', '-x': 'ext', '-f': 'fmap', '-o': 'outdir', '-n': 'nameprefix', '-S': 'scaleFactor', '-O': 'offset',
          '-vM': 'validMax', '-vm': 'validMin', '-vf': 'valueFormat', '-l': 'log_level', '-F': 'out_format', '-U': 'outputStepUnits', '-N': 'intertable_dir'}
FLAGS = {'-B': 'create_intertable', '-X': 'parallel'}
LONG = {'--commandsFile', '--outDir', '--inputFile', '--start', '--validMax'}
STRING_SHAPES = ['?', '??', '/?/?', '-5', '-.5', '?=?', '{?}', 'pyg2p', '2?', 'py?g']
CALL_SHAPES = STRING_SHAPES + ['? ?', '"?', '?"?"', ' ?', '-1.5', '?=', "'? ?'"]


def value(t, shape, name):
    out, k = '', 0
    for c in shape:
        if c == '?':
            # a digit first, then letters
            x = text(t, f'{name}.{k}', 1, 48 if k == 0 else 97, 57 if k == 0 else 122)
            out, k = out + str.__str__(x), k + 1
        else:
            out += c
    return out


def parsed(argv, t):
    """(option, value) pairs of an argument list"""
    out, i = [], 0
    flags = set(FLAGS) | {'-A', '-K'}
    while i < len(argv):
        a = str(argv[i])
        if a in flags or i + 1 == len(argv):
            out.append((a, None))
            i += 1
        elif a.startswith('--') and '=' in a:
            out.append(tuple(a.split('=', 1)))
            i += 1
        else:
            out.append((a, str(argv[i + 1])))
            i += 2
    return out


def called(run):
    """argument lists the tool was run with"""
    log = []

    def exe(*args):
        log.append(list(args[0] if isinstance(args[0], list) else args))
        return 0
    with Patched((api, 'pyg2p_exe', exe), (main, 'pyg2p_exe', exe)):
        run()
    return log


def agree(t, argv, expected):
    got = parsed(argv, t)
    last = {}
    for k, v in got:
        last[k] = v
    t.check('every option given is there, and no other', set(last) - {'-A'} == set(expected))
    t.check('options are given once', len(got) == len(last))
    for k, v in expected.items():
        if k in last:
            if v is None:
                t.check('a flag has no value', last[k] is None)
            else:
                t.check('value of the option', last[k] is not None and same_text(last[k], v))


def built(t, items, calls, program, blanks, how):
    """items: (option, shape, style) in the string; calls: (option, shape) through with_*"""
    expected, words, params = {}, [], {}
    for n, (opt, shape, style) in enumerate(items):
        v = None if shape is None else value(t, shape, f'string {n}')
        expected[opt] = v
        if v is None:
            words.append(opt)
        elif style == '=':
            words.append(f'{opt}={v}')
        elif style == 'quote':
            words += [opt, '"' + v.replace('"', '""') + '"']
        elif style in ('key', 'path'):
            params[f'key{n}'] = Path(v) if style == 'path' else v
            words += [opt, '{key%d}' % n]
            if style == 'path':
                expected[opt] = Path(v).as_posix()
        elif style == 'part':
            params[f'key{n}'] = v
            words += [opt, '/x/{key%d}/{key%d}.json' % (n, n)]
            expected[opt] = f'/x/{v}/{v}.json'
        else:
            words += [opt, v]
    s = program + (' ' * blanks).join(words) + ' ' * (blanks - 1)
    cmd = api.command(s, **params) if words or program or blanks == 2 else api.command(None if blanks == 1 else '') if t.flag('argument') else api.command()
    for n, (opt, shape) in enumerate(calls):
        if shape is None:
            r = getattr(cmd, 'with_' + FLAGS[opt])()
            expected[opt] = None
        else:
            v = t.choice(f'call {n}', [6, 0, -3]) if shape == 'number' else value(t, shape, f'call {n}')
            r = getattr(cmd, 'with_' + VALUED[opt])(Path(v) if shape == '/?/?' and n == 0 else v)
            expected[opt] = str(v) if isinstance(v, (int, float)) else v
        t.check('calls can be chained', r is cmd)
    expected.setdefault('-l', 'ERROR')
    log = called({'run': cmd.run, 'run_command': lambda: api.run_command(cmd), 'text': lambda: api.run_command(str(cmd)), 'twice': lambda: (str(cmd), cmd.run())}[how])
    t.cover('run')
    t.check('the tool is run once', len(log) == 1)
    agree(t, log[0], expected)


def pairs(t, places, how):
    """Any two options or flags, in the string or through calls; the last of the same option wins"""
    names = list(VALUED) + list(FLAGS)
    picks = []
    for i, where in enumerate(places):
        picks.append((t.choice(f'option {i}', names + (sorted(LONG) if where == 'string' else [])), where))
    if len({k for k, _ in picks} & LONG) and len(picks) == 2:
        t.assume({'--commandsFile': '-c', '--outDir': '-o', '--inputFile': '-i', '--start': '-s', '--validMax': '-vM'}.get(picks[0][0]) != picks[1][0])
        t.assume({'--commandsFile': '-c', '--outDir': '-o', '--inputFile': '-i', '--start': '-s', '--validMax': '-vM'}.get(picks[1][0]) != picks[0][0])
    built(t, [(k, None if k in FLAGS else '?' + 'ab'[i], '') for i, (k, w) in enumerate(picks) if w == 'string'], [(k, None if k in FLAGS else '?' + 'ab'[i]) for i, (k, w) in enumerate(picks) if w == 'call'], '', 1, how)


def independent(t, first):
    """Commands do not share options, and one can be changed after it was run"""
    a, b = api.command(), api.command('-c x.json -B')
    v = value(t, '/?/?', 'value')
    (a if first else b).with_outdir(v)
    (b if first else a).with_parallel()
    exp = [{'-l': 'ERROR'}, {'-l': 'ERROR', '-c': 'x.json', '-B': None}]
    exp[0 if first else 1]['-o'] = v
    exp[1 if first else 0]['-X'] = None
    for cmd, e in ((a, exp[0]), (b, exp[1])):
        agree(t, called(cmd.run)[0], e)
        w = value(t, '??', f'later {len(e)}')
        cmd.with_log_level('DEBUG').with_nameprefix('z').with_nameprefix(w)
        agree(t, called(lambda: api.run_command(cmd))[0], dict(e, **{'-l': 'DEBUG', '-n': w}))
    t.cover('run')


BUILDS = [dict(items=(), calls=(), program='', blanks=1, how='run'), dict(items=(), calls=(('-c', '/?/?'), ('-X', None), ('-s', 'number')), program='', blanks=1, how='run_command'), dict(items=(), calls=(('-n', '? ?'),), program='pyg2p', blanks=1, how='run')]
styles = ['', '=', 'key', 'quote', 'part', 'path']
opts, flags = list(VALUED) + sorted(LONG), list(FLAGS)
for i in range(30):
    items = []
    for j in range(1 + i % 3):
        o = opts[(7 * i + 5 * j) % len(opts)]
        style = styles[(i + 2 * j) % 6]
        shape = (STRING_SHAPES if style != 'quote' else CALL_SHAPES)[(i * 3 + j) % 10]
        if style in ('path', 'part', 'key', ''):
            shape = shape if shape not in ('{?}',) or style == '' else '?'
        items.append((o, shape, style))
    if i % 2:
        items.insert(i % (len(items) + 1), (flags[i % 4 // 2], None, ''))
    calls = [(list(VALUED)[(3 * i + 4 * j) % len(VALUED)], CALL_SHAPES[(i + j) % len(CALL_SHAPES)]) for j in range(i % 3)]
    if i % 5 == 0:
        calls.append((flags[i % 2], None))
    if i % 4 == 0:
        calls.append((items[0][0] if items[0][0] in VALUED else '-o', '?x'))
    BUILDS.append(dict(items=tuple(items), calls=tuple(calls), program=('', 'pyg2p ', '', 'pyg2p.py ', '  ')[i % 5], blanks=1 + (i % 7 == 3), how=('run', 'run_command', 'text', 'twice')[i % 4]))
    # every option through its call and in a string
ALL = [dict(items=((o, '??', ''),) if o in VALUED else ((o, None, ''),), calls=((p, '/?/?'),) if p in VALUED else ((p, None),), program='', blanks=1, how='run') for o, p in zip(opts[:21] + flags, (flags + list(VALUED))[1:] + flags[:1])]
FN = ['Command.__init__/with_*/__str__/run', 'run_command', 'to_argdict', 'to_argv']
HARNESSES = [
    Harness('built', built, BUILDS + ALL, FN, bounds='up to 4 options in the string and up to 4 calls; values of up to 2 arbitrary characters around fixed ones', stubs=['pyg2p_exe (records its arguments)'], covers=['run'],
            thorough_params=[dict(b, blanks=n, program=p, how=h) for b in BUILDS + ALL for n in (1, 2) for p in ('', 'pyg2p ', 'pyg2p.py ') for h in ('run', 'run_command', 'text', 'twice')]),
    Harness('pairs', pairs, [dict(places=p, how=h) for p, h in ((('string', 'string'), 'run'), (('string', 'call'), 'run_command'), (('call', 'call'), 'text'))], FN, bounds='every pair of options and flags', stubs=['pyg2p_exe (records its arguments)'], covers=['run'], thorough_params=[dict(places=p, how=h) for p in (('string', 'string'), ('string', 'call'), ('call', 'call')) for h in ('run', 'run_command', 'text', 'twice')]),
    Harness('independent', independent, [dict(first=f) for f in (True, False)], FN, bounds='two commands', stubs=['pyg2p_exe (records its arguments)'], covers=['run']),
]
