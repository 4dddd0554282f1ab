"""C18: user configuration over the global one, variables of map paths replaced by their values."""
import builtins
import io
import pyg2p.util.files as futil
from engine.runner import Harness
from engine.text import SymText, same_text, text
from .run_common import *

ASSUMPTIONS = ['characters of symbolic texts are blank to ~ of ASCII and tab', 'a variable is defined at most once', 'map files are taken as existing']


class World:
    """A scratch home: *.conf files with the given lines, global and user JSON files"""
    def __init__(self, t, d, confs, glob=None, user=None):
        self.t, self.d, self.lines = t, d, {}
        os.makedirs(d + '/home')
        os.makedirs(d + '/configuration/global')
        for n, lines in confs.items():
            self.lines[f'{d}/home/{n}'] = lines
            with open(f'{d}/home/{n}', 'w') as f:
                f.write(''.join(str.__str__(x) + '\n' for x in lines))
        for folder, files in ((d + '/configuration/global/', dict({'global_conf.json': {'intertables': d + '/global', 'geopotentials': d + '/global'}}, **(glob or {}))), (d + '/home/', user or {})):
            for n, c in files.items():
                with open(folder + n, 'w') as f:
                    json.dump(c, f)
        for n in ('a.grb',):
            with open(d + '/' + n, 'wb') as f:
                f.write(bytes([0]))

    def stubs(self):
        lines = self.lines

        class Lines(io.StringIO):
            """a text file whose lines have symbolic characters"""
            def __init__(self, items):
                super().__init__(''.join(str.__str__(x) + '\n' for x in items))
                self.items = items

            def __iter__(self):
                return iter([SymText(str.__str__(x) + '\n') for x in self.items])

            def readlines(self, *a):
                return list(self)

            def read(self, *a):
                return SymText(self.getvalue())

        def opened(path, mode='r', *a, **k):
            if str(path) in lines and 'w' not in mode:
                return Lines(lines[str(path)])
            return builtins.open(path, mode, *a, **k)
        exists = futil.exists
        out = [(cfg.UserConfiguration, 'config_dir', self.d + '/home/'), (cfg.GlobalConf, 'instance', None),
               (futil, 'exists', lambda p, is_folder=False: str(p).endswith('.map') or exists(p, is_folder))]
        return out + ([(cfg, 'open', opened)] if self.t.symbolic else [])

    def globals_(self):
        out = {}
        for f in os.listdir(self.d + '/configuration/global'):
            with open(self.d + '/configuration/global/' + f, 'rb') as h:
                out[f] = h.read()
        return out


class At:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


PARAMS = {'parameters.json': GLOBALS['parameters.json']}
MAPS = {'outMaps.clone': 'clone', 'interpolation.latMap': 'lat', 'interpolation.lonMap': 'lon', 'correction.demMap': 'dem'}


def configured(d, through, paths, param='tp', conv=None):
    """The context of a run whose map paths are given"""
    if through == 'command':
        u = json.loads(json.dumps(BASE))
        e = u['Execution']
        e['Parameter'].update({'@shortName': param, '@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': paths['correction.demMap']})
        if conv:
            e['Parameter']['@applyConversion'] = conv
        e['OutMaps']['@cloneMap'] = paths['outMaps.clone']
        e['OutMaps']['Interpolation'].update({'@latMap': paths['interpolation.latMap'], '@lonMap': paths['interpolation.lonMap']})
        with open(d + '/commands.json', 'w') as f:
            json.dump(u, f)
        return context.ExecutionContext(['-c', d + '/commands.json', '-i', d + '/a.grb', '-l', 'ERROR', '-o', d + '/out'])
    conf = dict(loggerLevel='ERROR', inputFile=d + '/a.grb', start=None, end=None, perturbationNumber=None, fmap=1, ext=1,
                OutMaps=dict(cloneMap=paths['outMaps.clone'], unitTime='6', Interpolation=dict(latMap=paths['interpolation.latMap'], lonMap=paths['interpolation.lonMap'], mode='nearest')),
                Parameter=dict(shortName=param, correctionFormula='p+gem+dem', gem='z', demMap=paths['correction.demMap']))
    if conv:
        conf['Parameter']['applyConversion'] = conv
    return api.ApiContext(conf)


def meaning(line):
    """(key, value) of a line of a .conf file"""
    line = line.strip()
    if not len(line) or line.startswith('#') or '=' not in line:
        return None
    k, v = line.split('=', 1)
    return k.strip(), v.strip(' "\t')


def definition(t, shape, name, n):
    """A line; ? stands for any character"""
    out = SymText('') if t.symbolic else ''
    k = 0
    for c in shape:
        if c == '?':
            out = out + text(t, f'{name}{k}', 1, tab=True)
            k += 1
        else:
            out = out + (n if c == '@' else c)
    return out


def lines(t, shape, through, newline):
    """One variable defined by any line of the given shape"""
    with Scratch() as d:
        line = definition(t, shape, 'c', 'MAPS_DIR')
        w = World(t, d, {'a.conf': ['# comment', 'OTHER=/other', line] + ([''] if newline else []), 'b.conf': ['LAST = "x y"'], 'readme.txt': ['MAPS_DIR=/wrong']}, PARAMS)
        other = dict({k: f'/m/{v}.map' for k, v in MAPS.items()}, **{'interpolation.latMap': '{MAPS_DIR}/lat.map', 'interpolation.lonMap': '{OTHER}/{LAST}.map'})
        with At(d), Patched(*w.stubs()):
            m = meaning(line)
            defined = m is not None and len(m[0]) == 8 and m[0] == 'MAPS_DIR'
            try:
                ctx = configured(d, through, other)
            except ApplicationException as e:
                t.cover('undefined')
                t.check('a defined variable is not an error', not defined)
                t.check('the undefined variable is named', 'MAPS_DIR' in str(e))
                return
            t.check('an undefined variable is an error', defined)
            if not defined:
                return
            t.cover('defined')
            t.check('the variable is replaced by its value', same_text(ctx.get('interpolation.latMap'), m[1] + '/lat.map'))
            t.check('other variables are replaced', ctx.get('interpolation.lonMap') == '/other/x y.map')
            t.check('other paths are left', ctx.get('outMaps.clone') == '/m/clone.map' and ctx.get('correction.demMap') == '/m/dem.map')


NAMES = ['A', 'AB', 'A_B', 'b']
TEMPLATES = [('{%0}/lat.map',), ('{%0}{%1}.map',), ('/x/{%0}/{%1}/{%0}.map',), ('{%0}.map', '/y/{%1}.map'), ('pre{%1}-{%0}/{%2}.map', '{%0}.map', '{%2}.map'), ('{a1}.map', '{%0}{}.map'), ('{{%0}}.map',)]


def variables(t, template, through, shift):
    """References to variables, each defined in one of two files or not at all"""
    with Scratch() as d:
        names = NAMES[shift:] + NAMES[:shift]
        where = [t.choice(f'{n} is defined in', ['a.conf', 'b.conf', None]) for n in names[:3]]
        values = [text(t, f'value of {n}', 2, 35) for n in names[:3]]
        confs = {'a.conf': [], 'b.conf': []}
        for n, f, v in zip(names, where, values):
            if f:
                confs[f].append(SymText(f'{n}=') + str.__str__(v) if t.symbolic else f'{n}={v}')
        w = World(t, d, confs, PARAMS)
        paths = {k: f'/m/{v}.map' for k, v in MAPS.items()}
        expected = dict(paths)
        used = set()
        import re
        for i, tpl in enumerate(template):
            k = list(MAPS)[(i + shift) % 4]
            paths[k] = re.sub('%(.)', lambda m: names[int(m.group(1))], tpl)
            used |= {int(x) for x in re.findall('{%(.)}', tpl)}
            expected[k] = re.sub('{%(.)}', lambda m: str.__str__(values[int(m.group(1))]), tpl)
        missing = [names[i] for i in used if where[i] is None]
        with At(d), Patched(*w.stubs()):
            try:
                ctx = configured(d, through, paths)
            except ApplicationException as e:
                t.cover('undefined')
                t.check('only undefined variables are an error', bool(missing))
                t.check('an undefined variable is named', any(n in str(e) for n in missing))
                return
            t.check('an undefined variable is an error', not missing)
            t.cover('defined')
            for k in MAPS:
                t.check('every variable is replaced by its value and nothing else', same_text(ctx.get(k), expected[k]))


FILES = {'parameters.json': 'parameters', 'geopotentials.json': 'geopotentials', 'intertables.json': 'intertables', 'ftp.json': 'ftp'}


def value(t, file, key, name):
    x = text(t, name, 2, 35)
    if file == 'parameters.json':
        return {'@shortName': key, '@description': x, '@unit': 'u', 'Conversion': {'@id': 'c', '@function': 'x=x', '@unit': 'v'}}, x
    if file == 'intertables.json':
        return {'filename': x, 'method': 'm'}, x
    return x, x


def inner(v):
    return v if not isinstance(v, dict) else v.get('@description', v.get('filename'))


def merge(t, file, user_file):
    """Entries of the same and of other keys in global and user files"""
    with Scratch() as d:
        keys = {'parameters.json': ['tp', '2t', 'x y'], 'ftp.json': ['host', 'user', 'folder']}.get(file, ['M$1$2', 'M$2$2', 'k'])
        glob, user, ref = {}, {}, {}
        for k in keys:
            if t.flag(f'{k} in the global file'):
                glob[k], ref[k] = value(t, file, k, f'global {k}')
            if user_file and t.flag(f'{k} in the user file'):
                user[k], ref[k] = value(t, file, k, f'user {k}')
        g, u = dict(PARAMS, **{file: glob}), {file: user} if user_file else {}
        if file != 'parameters.json':
            u['parameters.json'] = {}
        w = World(t, d, {'p.conf': [f'INTERTABLES={d}/user', f'GEOPOTENTIALS={d}/user']}, g, u)
        before = w.globals_()

        def content():
            with open(f'{d}/home/{file}') as f:
                return json.load(f)
        with At(d), Patched(*w.stubs()):
            for n in range(2):
                conf = getattr(cfg.Configuration(), FILES[file])
                for k in keys:
                    if k in ref:
                        t.check('user entry, else the global entry', k in conf.vars and same_text(inner(conf.vars[k]), ref[k]))
                    else:
                        t.check('no other entry', not conf.vars.get(k))
                t.check('global files unchanged', w.globals_() == before)
                c = content()
                t.check('user file holds user entries only', all(k in c and same_text(inner(c[k]), inner(user[k])) for k in user) and all(k in user for k in c if k in keys and file != 'ftp.json'))
            # a change of the user configuration
            conf.user_vars['new'] = conf.vars['new'] = {'filename': 'f'} if file == 'intertables.json' else 'f'
            conf.dump()
            c = content()
            t.check('entries of the global file are not copied to the user file', all(k in user for k in c if k in keys and file != 'ftp.json') and 'new' in c)
            t.check('global files unchanged', w.globals_() == before)
            conf = getattr(cfg.Configuration(), FILES[file])
            for k in keys:
                if k in ref:
                    t.check('user entry, else the global entry', k in conf.vars and same_text(inner(conf.vars[k]), ref[k]))
        t.cover('merged')


def seen(t, through, where):
    """The parameter a run uses"""
    with Scratch() as d:
        p = {}
        for w in where:
            p[w], _ = value(t, 'parameters.json', 'q', f'{w} description')
            p[w]['@unit'] = w + ' unit'
            p[w]['Conversion'] = [{'@id': 'a', '@function': f'x={w}a', '@unit': w + ' a'}, {'@id': w, '@function': f'x={w}', '@unit': w + ' c', '@cutOffNegative': 'True'}]
        w = World(t, d, {}, {'parameters.json': {'q': p['global']} if 'global' in p else {}}, {'parameters.json': {'q': p['user']} if 'user' in p else {}})
        winner = 'user' if 'user' in p else 'global'
        conv = t.choice('conversion', [None, 'a', 'global', 'user'])
        known = where and conv in (None, 'a', winner)
        before = w.globals_()
        with At(d), Patched(*w.stubs()):
            try:
                ctx = configured(d, through, {k: f'/m/{v}.map' for k, v in MAPS.items()}, 'q', conv)
            except ApplicationException as e:
                t.cover('refused')
                t.check('a known parameter and conversion are accepted', not known)
                t.check('the parameter is named', 'q' in str(e))
                return
            finally:
                t.check('global files unchanged', w.globals_() == before)
            t.cover('used')
            t.check('an unknown parameter or conversion is refused', known)
            t.check('entry of the user, else the global one', same_text(ctx.get('parameter.description'), inner(p[winner])))
            x = next((c for c in p[winner]['Conversion'] if c['@id'] == conv), None)
            t.check('unit', ctx.get('parameter.unit') == winner + ' unit' and ctx.get('parameter.conversionUnit') == (x['@unit'] if x else winner + ' unit'))
            if x:
                t.check('conversion', ctx.get('parameter.conversionFunction') == x['@function'] and bool(ctx.get('parameter.cutoffnegative')) == (x['@id'] != 'a'))


SHAPES = ['@=????', '?@=?', '@?=?', '@?/a', '@=a=??', '@ = ??b?', '??@=v', '@', '?@ =/x?', '@==?', '@=?/=?/#?']
FN = ['UserConfiguration.__init__/load_properties/interpolate_strings', 'ExecutionContext', 'ApiContext']
HARNESSES = [
    Harness('lines', lines, [dict(shape=s, through=('command', 'api')[i % 2], newline=bool(i % 2)) for i, s in enumerate(SHAPES)], FN, bounds='lines of a .conf file with up to 4 arbitrary characters around a variable of fixed name',
            stubs=['existence of map files', 'lines of the .conf files (symbolic runs only)'], covers=['defined', 'undefined'],
            thorough_params=[dict(shape=s, through=h, newline=n) for s in SHAPES + ['@=??????', '?@?=??', '???@=v', '@=?"?\'?"', '@????'] for h in ('command', 'api') for n in (True, False)]),
    Harness('variables', variables, [dict(template=x, through=('command', 'api')[(i + s) % 2], shift=s) for i, x in enumerate(TEMPLATES) for s in range(2)], FN, bounds='up to three variables in up to three map paths, defined in one of two files or undefined, values of 2 arbitrary characters',
            stubs=['existence of map files', 'lines of the .conf files (symbolic runs only)'], covers=['defined', 'undefined'], thorough_params=[dict(template=x, through=h, shift=s) for x in TEMPLATES for h in ('command', 'api') for s in range(4)]),
    Harness('merge', merge, [dict(file=f, user_file=u) for f in FILES for u in (True, False)], ['BaseConfiguration.load_global/merge_with_user_conf/dump', 'Configuration'], bounds='three keys, each in the global file, the user file, both or none; any text values; file present or not',
            covers=['merged']),
    Harness('seen', seen, [dict(through=h, where=w) for h in ('command', 'api') for w in ((), ('global',), ('user',), ('global', 'user'))], ['ParametersConfiguration.get/get_conversion', 'ExecutionContext', 'ApiContext'],
            bounds='one parameter in the global file, the user file, both or none', stubs=['existence of map files'], covers=['used', 'refused']),
]
