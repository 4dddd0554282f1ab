"""Texts with symbolic characters.  A SymText is a str in which private characters (U+F000...) stand for symbolic
code points; the methods which depend on what the characters are branch on them.  Plain operations of str (join,
formatting, substitution) carry the private characters along."""
from . import core
from .core import Unsupported
from .lib import t_and, is_sym

BLANK = ' \t\n\r\x0b\x0c'
BASE = 0xF000


def codes():
    return core.engine().char_vars if core.CUR is not None else {}


def is_private(c):
    return c in codes()


def char_is(c, chars):
    """Is the character one of chars?  Branches if it is symbolic."""
    v = codes().get(c)
    if v is None:
        return c in chars
    if not len(chars):
        return False
    import z3
    from .core import mk_bool, to_bool_expr
    return bool(mk_bool(z3.Or(*[to_bool_expr(v == ord(x)) for x in chars])))


def same_char(a, b):
    """condition"""
    if a == b:
        return True
    va, vb = codes().get(a), codes().get(b)
    if va is None and vb is None:
        return False
    return (va if va is not None else ord(a)) == (vb if vb is not None else ord(b))


def same_text(a, b):
    """condition: the two texts are equal"""
    if len(a) != len(b):
        return False
    return t_and(*[same_char(x, y) for x, y in zip(str.__str__(a), str.__str__(b))])


def text(t, name, n, lo=32, hi=126, tab=False):
    """A text of n arbitrary characters"""
    cs = []
    for i in range(n):
        v = t.int(f'{name}.{i}', 9 if tab else lo, hi)
        if tab:
            t.assume(v == 9 if not is_sym(v) and v == 9 else ((v >= lo) | (v == 9)) if is_sym(v) else v >= lo)
        if is_sym(v):
            c = chr(BASE + len(codes()))
            core.engine().char_vars[c] = v
            cs.append(c)
        else:
            cs.append(chr(int(v)))
    s = ''.join(cs)
    return SymText(s) if t.symbolic else s


def wrap(s):
    return SymText(s) if any(c in codes() for c in s) else str(s)


class SymText(str):
    def _raw(self):
        return str.__str__(self)

    def _strip(self, chars, left, right):
        s = self._raw()
        chars = BLANK if chars is None else chars
        i, j = 0, len(s)
        while left and i < j and char_is(s[i], chars):
            i += 1
        while right and j > i and char_is(s[j - 1], chars):
            j -= 1
        return wrap(s[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _at(self, i, sub):
        s = self._raw()
        if i < 0 or i + len(sub) > len(s):
            return False
        return all(char_is(s[i + k], c) if not is_private(c) else bool(same_char(s[i + k], c)) for k, c in enumerate(sub))

    def find(self, sub, start=0, end=None):
        n = len(self) if end is None else min(end, len(self))
        for i in range(start, n - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self) if end is None else min(end, len(self))
        for i in range(n - len(sub), start - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n = i = 0
        while (i := self.find(sub, i)) >= 0:
            n, i = n + 1, i + len(sub)
        return n

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, p, start=0):
        return any(self._at(start, x) for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p):
        return any(self._at(len(self) - len(x), x) for x in (p if isinstance(p, tuple) else (p,)))

    def split(self, sep=None, maxsplit=-1):
        s = self._raw()
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(s) and char_is(s[i], BLANK):
                    i += 1
                if i == len(s):
                    return out
                if maxsplit >= 0 and len(out) == maxsplit:
                    return out + [wrap(s[i:])]
                j = i
                while j < len(s) and not char_is(s[j], BLANK):
                    j += 1
                out.append(wrap(s[i:j]))
                i = j
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(wrap(s[i:j]))
            i = j + len(sep)
        return out + [wrap(s[i:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        s, out, j = self._raw(), [], len(self)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, j)
            if i < 0:
                break
            out.insert(0, wrap(s[i + len(sep):j]))
            j = i
        return [wrap(s[:j])] + out

    def partition(self, sep):
        i = self.find(sep)
        s = self._raw()
        return (wrap(s), '', '') if i < 0 else (wrap(s[:i]), sep, wrap(s[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        s = self._raw()
        return ('', '', wrap(s)) if i < 0 else (wrap(s[:i]), sep, wrap(s[i + len(sep):]))

    def replace(self, old, new, count=-1):
        return wrap(new.join(self.split(old, count)))

    def splitlines(self, keepends=False):
        if any(is_private(c) and char_is(c, '\n\r') for c in self._raw()):
            raise Unsupported('symbolic line ends')
        return [wrap(x) for x in self._raw().splitlines(keepends)]

    def removeprefix(self, p):
        return wrap(self._raw()[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return wrap(self._raw()[:len(self) - len(p)]) if p and self.endswith(p) else self

    def isspace(self):
        return len(self) > 0 and all(char_is(c, BLANK) for c in self._raw())

    def _unsupported(self, *a, **k):
        raise Unsupported('text method')

    lower = upper = casefold = title = swapcase = capitalize = isdigit = isalpha = isalnum = isnumeric = isdecimal = isidentifier = isupper = islower = \
        translate = expandtabs = encode = format = format_map = _unsupported

    def __getitem__(self, i):
        return wrap(self._raw()[i])

    def __iter__(self):
        return (wrap(c) for c in self._raw())

    def __add__(self, o):
        return wrap(self._raw() + o)

    def __radd__(self, o):
        return wrap(o + self._raw())

    def __mul__(self, n):
        return wrap(self._raw() * n)

    def __eq__(self, o):
        return isinstance(o, str) and bool(same_text(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._raw())


class SymDict(dict):
    """A dictionary whose keys can be texts with symbolic characters: equality of keys branches"""
    def _find(self, k):
        if dict.__contains__(self, k) and not any(is_private(c) for c in str(k)):
            others = [x for x in dict.__iter__(self) if isinstance(x, str) and any(is_private(c) for c in str.__str__(x))]
            if not others:
                return k
        if not isinstance(k, str):
            return k if dict.__contains__(self, k) else None
        for x in dict.__iter__(self):
            if isinstance(x, str) and bool(same_text(x, k)):
                return x
        return None

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        x = self._find(k)
        if x is None:
            raise KeyError(k)
        return dict.__getitem__(self, x)

    def get(self, k, default=None):
        x = self._find(k)
        return default if x is None else dict.__getitem__(self, x)

    def __setitem__(self, k, v):
        x = self._find(k)
        dict.__setitem__(self, k if x is None else x, v)

    def __delitem__(self, k):
        x = self._find(k)
        if x is None:
            raise KeyError(k)
        dict.__delitem__(self, x)

    def pop(self, k, *default):
        x = self._find(k)
        if x is None:
            if default:
                return default[0]
            raise KeyError(k)
        return dict.pop(self, x)

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, *a, **kw):
        for o in a + (kw,):
            for k, v in (o.items() if hasattr(o, 'items') else o):
                self[k] = v

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self


class json_symbolic:
    """Stands for the json module where keys of objects can be symbolic"""
    def __init__(self):
        import json
        self._json = json

    def __getattr__(self, n):
        return getattr(self._json, n)

    def load(self, f, **k):
        return self._json.load(f, object_pairs_hook=SymDict, **k)

    def loads(self, s, **k):
        return self._json.loads(str(s), object_pairs_hook=SymDict, **k)


# ------------------------------------------------------------------ numbers (exact_strings='text')
def _digits(v, width):
    """text of a symbolic integer 0 <= v < 10**width, with all its width digits"""
    eng = core.engine()
    key = ('digits', v.e.get_id() if is_sym(v) else int(v), width)
    if key not in eng.digit_texts:
        import z3
        chars, total = '', 0
        for _ in range(width):
            c, d = chr(BASE + len(codes())), eng.fresh_int('digit')
            eng.add(z3.And(d.e >= 48, d.e <= 57))
            eng.char_vars[c] = d
            chars += c
            total = total * 10 + (d - 48)
        eng.add(core.to_bool_expr(total == v))
        eng.digit_texts[key] = v, chars
    return eng.digit_texts[key][1]


def _natural(v, width=0):
    n = max(width, 1)
    while not bool(v < 10 ** n):
        n += 1
        if n > 18:
            raise Unsupported('text of a large number')
    return _digits(v, n)


def rounded(v, n):
    """the integer nearest to v * 10**n, the even one of two"""
    if not is_sym(v):
        from fractions import Fraction
        return round(Fraction(v) * 10 ** n)
    eng = core.engine()
    key = ('rounded', v.e.get_id(), n)
    if key not in eng.digit_texts:
        import z3
        k = eng.fresh_int('rounded')
        d = 2 * ((z3.ToReal(v.e) if isinstance(v, core.SymInt) else v.e) * 10 ** n - z3.ToReal(k.e))
        eng.add(z3.And(d >= -1, d <= 1, z3.Implies(z3.Or(d == 1, d == -1), k.e % 2 == 0)))
        eng.digit_texts[key] = v, k
    return eng.digit_texts[key][1]


def number(v, spec):
    """What format(v, spec) gives for a symbolic number: '', 'd', '05d', '.3f'"""
    import re
    if isinstance(v, core.SymInt) and (m := re.fullmatch(r'(?:0(\d+))?d?', spec)):
        if bool(v < 0):
            return SymText('-' + _natural(-v, int(m[1] or 0) - 1))
        return SymText(_natural(v, int(m[1] or 0)))
    if m := re.fullmatch(r'\.(\d+)f', spec):
        n = int(m[1])
        k = rounded(v, n)
        neg = bool(v < 0)
        d = _natural(-k if neg else k, n + 1)
        return SymText(('-' if neg else '') + d[:len(d) - n] + ('.' + d[-n:] if n else ''))
    raise Unsupported(f'text of a number: {spec!r}')


def percent(a, b):
    """a % b"""
    import re
    if not isinstance(a, str) or not any(isinstance(x, core.Sym) for x in (b if isinstance(b, tuple) else (b,))):
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    out, pos = '', 0
    for m in re.finditer(r'%(?:%|([0-9.]*)([dfsi]))', a):
        out += a[pos:m.start()]
        pos = m.end()
        if m[0] == '%%':
            out += '%'
            continue
        x = args.pop(0)
        out += format(x, m[1] + {'i': 'd', 's': ''}.get(m[2], m[2])) if m[2] != 's' else str(x)
    return wrap(out + a[pos:])


def with_texts(module):
    """The names of a module whose source is compiled again with % of texts able to take symbolic numbers"""
    import ast

    class T(ast.NodeTransformer):
        def visit_BinOp(self, node):
            self.generic_visit(node)
            if isinstance(node.op, ast.Mod):
                return ast.copy_location(ast.Call(ast.Name('_percent_', ast.Load()), [node.left, node.right], []), node)
            return node
    with open(module.__file__) as f:
        tree = ast.fix_missing_locations(T().visit(ast.parse(f.read(), module.__file__)))
    ns = {'__name__': module.__name__, '__file__': module.__file__, '__package__': module.__package__, '__builtins__': __builtins__, '_percent_': percent}
    if hasattr(module, '__path__'):
        ns['__path__'] = module.__path__
    exec(compile(tree, module.__file__, 'exec'), ns)
    return ns
