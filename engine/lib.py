"""Helpers shared by harness bodies (work symbolically and concretely)."""
import numpy as np
import numpy.ma as ma

from .core import Sym, is_sym, ite, mk_bool, to_bool_expr, lift, SymBool
from . import core
import z3


def arr(t, vals, mask=None, shape=None):
    if t.symbolic:
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = np.float64(v) if isinstance(v, (float, int)) and not isinstance(v, bool) else v
    else:
        a = np.array([float(v) for v in vals])
    if t.symbolic:
        from .nplike import ObjArr
        a = a.view(ObjArr)
    if shape is not None:
        a = a.reshape(shape)
    if mask is not None:
        m = np.array(mask, dtype=bool)
        if shape is not None:
            m = m.reshape(shape)
        a = ma.masked_array(a, mask=m)
    return a


def cells(a):
    """list of (masked?, value) of an array, in C order"""
    m = np.broadcast_to(ma.getmaskarray(a), np.shape(a)).ravel() if isinstance(a, ma.MaskedArray) else np.zeros(np.size(a), dtype=bool)
    d = np.asarray(a.data if isinstance(a, ma.MaskedArray) else a).ravel()
    return [(bool(x), y) for x, y in zip(m, d)]


def t_and(*cs):
    es = [c for c in cs if not isinstance(c, (bool, np.bool_))]
    if any(isinstance(c, (bool, np.bool_)) and not c for c in cs):
        return False
    if not es:
        return True
    return mk_bool(z3.And(*[to_bool_expr(c) for c in es]))


def t_or(*cs):
    es = [c for c in cs if not isinstance(c, (bool, np.bool_))]
    if any(isinstance(c, (bool, np.bool_)) and c for c in cs):
        return True
    if not es:
        return False
    return mk_bool(z3.Or(*[to_bool_expr(c) for c in es]))


def t_not(c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c


class Patched:
    """Environment stubs used in symbolic and concrete runs alike: with Patched((obj, name, value), ...)"""
    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.saved = []
        for o, n, v in self.items:
            self.saved.append((o, n, o.__dict__.get(n, KeyError)))
            setattr(o, n, v)
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            if v is KeyError:
                delattr(o, n)
            else:
                setattr(o, n, v)


def int_texts(s):
    """the integers in a text written by the code under test"""
    import re
    if '\u27ea' in s:
        toks = core.engine().tokens
        return [toks[x] if x in toks else int(x) for x in re.findall('\u27ea\\d+\u27eb|\\d+', s)]
    return [int(x) for x in re.findall(r'\d+', s)]


def text_eq(a, b):
    """Equality of two texts, whose digits can stand for symbolic ones (exact_strings='digits')"""
    if len(a) != len(b):
        return False
    if a == b:
        return True
    dv = core.engine().digit_vars if core.CUR is not None else {}
    out = []
    for x, y in zip(a, b):
        if x == y:
            continue
        vx, vy = (dv[c] if c in dv else int(c) if c in '0123456789' else None for c in (x, y))
        if vx is None or vy is None or not (is_sym(vx) or is_sym(vy)):
            return False
        out.append(vx == vy)
    return t_and(*out)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, core.SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, core.SymInt))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sym_int(int, metaclass=_IntMeta):
    """int() that keeps a symbolic number symbolic (Harness(builtins={'int': sym_int}))"""
    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            x = x[()]
        if isinstance(x, core.SymInt):
            return x
        if is_sym(x) and hasattr(x, '__trunc__'):
            return x.__trunc__()
        if isinstance(x, str) and core.CUR is not None and x.strip() in core.engine().tokens:
            return core.engine().tokens[x.strip()]
        if isinstance(x, str) and core.CUR is not None and any(c in core.engine().digit_vars for c in x):
            n = 0
            for c in x.strip():
                n = n * 10 + core.engine().digit_vars.get(c, int(c) if c in '0123456789' else None)
            return n
        return int(x, *a)
