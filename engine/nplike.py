"""Stand-ins for the numpy and numexpr *module globals* of the code under test.

Arrays stay real numpy (and numpy.ma) arrays, of dtype object where they may hold symbolic reals, so
indexing, broadcasting, mask algebra and views are numpy's own.  Only what numpy cannot do on objects is
replaced here.  Everything falls through to the real library when no symbolic value is involved.
"""
import ast
import math
import sys
import types

import numpy as np
import numpy.ma as ma

from . import core
import z3
from .core import Sym, SymBool, SymInt, SymNum, SymReal, Unsupported, ite, is_sym


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        d = a.data if isinstance(a, ma.MaskedArray) else a
        return any(isinstance(x, Sym) for x in np.asarray(d, dtype=object).ravel())
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def is_obj(a):
    return isinstance(a, Sym) or (isinstance(a, np.ndarray) and a.dtype == object) or \
        (isinstance(a, (list, tuple)) and has_sym(a))


def _floatish(dtype):
    if dtype is None:
        return True
    if dtype is object:
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating) or np.dtype(dtype) == object
    except TypeError:
        return False


def f32(x):
    """Rounding of a symbolic real to single precision: numbers that certainly need more bits may change, others stay."""
    eng = core.CUR
    if isinstance(x, SymInt):
        x = x * 1.0
    if not isinstance(x, SymReal):
        return np.float64(np.float32(x)) if isinstance(x, (float, int, np.number)) else x
    cache = eng.__dict__.setdefault('f32', {}) if not hasattr(eng, 'f32') or eng.f32.get('path') is not eng.solver else eng.f32
    if cache.get('path') is not eng.solver:
        cache.clear()
        cache['path'] = eng.solver
    k = x.e.get_id()
    if k not in cache:
        r = eng.fresh_real('f32')
        e, q = x.e, x.e * (1 << 20)
        eng.add(z3.Or(r.e == e, z3.And(z3.Or(e >= 16, e <= -16), z3.Not(z3.IsInt(q)), (r.e - e) * (1 << 23) <= z3.If(e >= 0, e, -e),
                                      (e - r.e) * (1 << 23) <= z3.If(e >= 0, e, -e))))
        cache[k] = (r, x)
    return cache[k][0]


def cast(a, dtype):
    """astype of an array that may hold symbolic values"""
    plain = np.asarray(a.data if isinstance(a, ma.MaskedArray) else a)
    if isinstance(dtype, _F64Meta):
        dtype = dtype._t
    dt = np.dtype(dtype) if dtype is not object else np.dtype(object)
    if plain.dtype != object or not has_sym(plain):
        if plain.dtype == object and dt.kind == 'f' and core.CUR is not None:
            f = np.frompyfunc(lambda x: np.float64(dt.type(x)), 1, 1)
            return f(plain).view(ObjArr) if plain.size else plain.copy()
        return np.array(plain).astype(dt)
    if dt.kind == 'f':
        if dt.itemsize < 8:
            return np.frompyfunc(f32, 1, 1)(plain).view(ObjArr)
        return plain.copy().view(ObjArr)
    if dt.kind in 'iu':
        def to_int(x):
            if isinstance(x, SymReal):
                return x.__trunc__()
            if isinstance(x, (SymInt, int)):
                return x
            with np.errstate(invalid='ignore'):
                return int(np.array(x).astype(dt))   # as numpy does for NaN and numbers out of range
        r = np.frompyfunc(to_int, 1, 1)(plain)
        return r if has_sym(r) else r.astype(dt)
    if dt.kind == 'b':
        return np.array([bool(x != 0) for x in plain.ravel()], dtype=bool).reshape(plain.shape)
    if dt.kind == 'O':
        return plain.copy().view(ObjArr)
    raise Unsupported(f'astype {dt}')


def ma_astype(self, dtype, *r, **k):
    if self.dtype != object or core.CUR is None:
        return np.ndarray.astype(self, dtype, *r, **k)
    out = ma.array(cast(self, dtype), mask=ma.getmask(self).copy() if ma.getmask(self) is not ma.nomask else ma.nomask)
    out._fill_value = None
    return out


_real_domained = ma.core._DomainedBinaryOperation.__call__


def ma_domained(self, a, b, *args, **kwargs):
    """masked division and remainder of arrays with symbolic values: cells divided by zero become masked"""
    da, db = ma.getdata(a), ma.getdata(b)
    if core.CUR is None or not (has_sym(da) or has_sym(db)) or self.f not in (np.true_divide, np.floor_divide, np.remainder, np.fmod):
        return _real_domained(self, a, b, *args, **kwargs)
    xa, xb = np.broadcast_arrays(np.asarray(da, dtype=object), np.asarray(db, dtype=object))
    mask = np.broadcast_to(ma.getmaskarray(a), xa.shape) | np.broadcast_to(ma.getmaskarray(b), xa.shape)
    op = {np.true_divide: lambda x, y: x / y, np.floor_divide: lambda x, y: x // y}.get(self.f, lambda x, y: x % y)
    out, mask = np.empty(xa.shape, dtype=object), mask.copy()
    for i in np.ndindex(*xa.shape):
        out[i] = xa[i]
        if not mask[i]:
            if bool(xb[i] == 0):
                mask[i] = True
            else:
                out[i] = op(xa[i], xb[i])
    return ma.array(out.view(ObjArr), mask=mask)


class ObjArr(np.ndarray):
    """Array of floats and symbolic values; plain numbers stored into it become numpy floats (division by zero as numpy)."""
    def astype(self, dtype, *r, **k):
        if core.CUR is None or isinstance(self, ma.MaskedArray):
            return np.ndarray.astype(self, dtype, *r, **k)
        return cast(self, dtype)

    def __setitem__(self, k, v):
        if type(v) in (float, int):
            v = np.float64(v)
        elif isinstance(v, np.ndarray) and v.dtype != object and v.dtype.kind in 'fiu':
            w = np.empty(v.shape, dtype=object)
            wf = w.reshape(-1)
            for i, x in enumerate(v.ravel()):
                wf[i] = np.float64(x)
            v = wf.reshape(v.shape)
        np.ndarray.__setitem__(self, k, v)

    def fill(self, v):
        np.ndarray.fill(self, np.float64(v) if type(v) in (float, int) else v)


def elementwise(f, nin):
    uf = np.frompyfunc(f, nin, 1)

    def g(*args):
        masked = [a for a in args if isinstance(a, ma.MaskedArray)]
        plain = [a.data if isinstance(a, ma.MaskedArray) else a for a in args]
        r = uf(*plain)
        if masked:
            m = ma.nomask
            for a in masked:
                m = ma.mask_or(m, ma.getmask(a), shrink=False) if m is not ma.nomask or ma.getmask(a) is not ma.nomask else m
            r = ma.array(r, mask=m, copy=False)
        return r
    return g


def boolify(a):
    """object array of truth values -> bool array (forks on symbolic ones)"""
    if isinstance(a, ma.MaskedArray):
        return ma.array(boolify(a.data), mask=a.mask)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return a
    return bool(a)


def _num_pred(name):
    real = getattr(np, name)

    def f1(x):
        if isinstance(x, Sym):
            return name == 'isfinite'
        return bool(real(x))
    ew = elementwise(f1, 1)

    def f(x, *a, **k):
        if is_obj(x):
            if isinstance(x, (list, tuple)):
                x = np.array(x, dtype=object)
            r = ew(x)
            return boolify(r) if isinstance(r, np.ndarray) else bool(r)
        return real(x, *a, **k)
    return f


def _unary(name):
    real = getattr(np, name)

    def f1(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        return float(real(x))
    ew = elementwise(f1, 1)

    def f(x, *a, **k):
        if is_obj(x):
            if isinstance(x, (list, tuple)):
                x = np.array(x, dtype=object)
            return ew(x)
        return real(x, *a, **k)
    return f


def _minmax(is_max):
    def f1(a, b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return math.nan
        c = (a >= b) if is_max else (a <= b)
        return ite(c, a, b) if isinstance(c, SymBool) else (a if c else b)
    return f1


def obj_array(x, shape=None):
    """nested lists / arrays -> object array without numpy calling __len__ etc."""
    if isinstance(x, np.ndarray):
        return x.astype(object)
    a = np.array(x, dtype=object)
    return a


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_real'] = np

    def __getattr__(self, name):
        return getattr(np, name)


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._t)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._t)

    def __eq__(cls, o):
        return o is cls or o is cls._t

    def __hash__(cls):
        return hash(cls._t)


def _float_type(t):
    # callable on symbolic values, usable as a dtype otherwise
    class F(metaclass=_F64Meta):
        _t = t
        dtype = np.dtype(t)

        def __new__(cls, v=0.0):
            if isinstance(v, SymInt) or isinstance(v, SymReal):
                return f32(v) if np.dtype(t).itemsize < 8 else v
            if isinstance(v, np.ndarray) and v.dtype == object:
                return cast(v, t)
            if isinstance(v, str) and core.CUR is not None and hasattr(v, 'sym'):
                return v.sym
            return t(v)
    F.__name__ = t.__name__
    return F


def make_np(strict_empty=True):
    P = NPProxy()
    d = P.__dict__

    def want_obj(dtype):
        return core.CUR is not None and _floatish(dtype)

    def undt(dtype):
        return getattr(dtype, '_t', dtype) if isinstance(dtype, _F64Meta) else dtype

    def zeros(shape, dtype=float, **k):
        dtype = undt(dtype)
        if want_obj(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(np.float64(0.0))
            return a.view(ObjArr)
        return np.zeros(shape, dtype=dtype, **k)

    def ones(shape, dtype=float, **k):
        dtype = undt(dtype)
        if want_obj(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(np.float64(1.0))
            return a.view(ObjArr)
        return np.ones(shape, dtype=dtype, **k)

    def empty(shape, dtype=float, **k):
        dtype = undt(dtype)
        if want_obj(dtype):
            a = np.empty(shape, dtype=object)
            flat = a.reshape(-1)
            for i in range(flat.size):
                # uninitialised memory: an arbitrary value
                flat[i] = core.CUR.fresh_real('uninit')
            return flat.reshape(a.shape).view(ObjArr)
        return np.empty(shape, dtype=dtype, **k)

    def full(shape, v, dtype=None, **k):
        dtype = undt(dtype)
        if is_sym(v) or (isinstance(v, (float, np.floating)) and dtype is None and want_obj(None)) or (dtype is not None and want_obj(dtype)):
            a = np.empty(shape, dtype=object)
            a.fill(np.float64(v) if isinstance(v, (float, int, np.floating)) and not isinstance(v, bool) else v)
            return a.view(ObjArr)
        return np.full(shape, v, dtype=dtype, **k)

    def like(f):
        def g(a, dtype=None, **k):
            dt = undt(dtype) if dtype is not None else np.asanyarray(a).dtype
            sh = k.get('shape') or np.shape(a)
            r = f(sh, dtype=dt)
            if isinstance(a, ma.MaskedArray):
                r = ma.array(r, mask=ma.getmask(a).copy() if ma.getmask(a) is not ma.nomask else ma.nomask)
            return r
        return g

    def full_like(a, v, dtype=None, **k):
        dt = undt(dtype) if dtype is not None else np.asanyarray(a).dtype
        return full(np.shape(a), v, dtype=dt)

    def conv(f):
        def g(x, dtype=None, *a, **k):
            dtype = undt(dtype)
            if dtype is not None and want_obj(dtype) and dtype is not object and (has_sym(x) or is_obj(x)):
                dtype = object
            elif dtype is None and has_sym(x) and not isinstance(x, np.ndarray):
                dtype = object
            if dtype is None:
                return f(x, *a, **k)
            if dtype is not object and has_sym(x) and np.dtype(dtype).kind in 'iu':
                return cast(f(x, object, *a, **k), dtype)
            return f(x, dtype, *a, **k)
        return g

    d.update(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=like(zeros), ones_like=like(ones),
             empty_like=like(empty), full_like=full_like, array=conv(np.array), asarray=conv(np.asarray), asanyarray=conv(np.asanyarray))
    for n in ('isnan', 'isfinite', 'isinf'):
        d[n] = _num_pred(n)
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'deg2rad', 'radians', 'rad2deg', 'degrees'):
        d[n] = _unary(n)
    for n, mx in (('maximum', True), ('minimum', False), ('fmax', True), ('fmin', False)):
        ew = elementwise(_minmax(mx), 2)
        real = getattr(np, n)
        d[n] = (lambda ew, real: lambda a, b, *r, **k: ew(_o(a), _o(b)) if is_obj(a) or is_obj(b) else real(a, b, *r, **k))(ew, real)

    def rounder(name):
        def f1(x):
            return getattr(x, name)() if is_sym(x) else getattr(np, name)(x)
        ew, real = elementwise(f1, 1), getattr(np, name)
        return lambda a, *r, **k: ew(_o(a)) if is_obj(a) else real(a, *r, **k)

    for n in ('rint', 'floor', 'ceil', 'trunc'):
        d[n] = rounder(n)

    def around(a, decimals=0, *r, **k):
        if not is_obj(a):
            return np.around(a, decimals, *r, **k)
        return d['rint'](a) if not decimals else d['rint'](a * 10.0 ** decimals) / 10.0 ** decimals
    d['around'] = d['round'] = d['round_'] = around

    def clip(a, lo, hi, *r, **k):
        if is_obj(a) or is_obj(lo) or is_obj(hi):
            x = a
            if lo is not None:
                x = d['maximum'](x, lo)
            if hi is not None:
                x = d['minimum'](x, hi)
            return x
        return np.clip(a, lo, hi, *r, **k)
    d['clip'] = clip

    def where(c, *ab):
        if not ab:
            return np.where(boolify(c) if is_obj(c) else c)
        if has_sym(c):
            return elementwise(lambda c, a, b: ite(c, a, b), 3)(_o(c), _o(ab[0]), _o(ab[1]))
        return np.where(c, *ab)
    d['where'] = where

    def anyall(f):
        def g(a, *r, **k):
            if is_obj(a):
                a = boolify(_o(a))
            return f(a, *r, **k)
        return g
    for n in ('any', 'all', 'logical_not', 'count_nonzero', 'nonzero', 'flatnonzero', 'argwhere'):
        d[n] = anyall(getattr(np, n))

    def logical2(f):
        def g(a, b, *r, **k):
            return f(boolify(_o(a)) if is_obj(a) else a, boolify(_o(b)) if is_obj(b) else b, *r, **k)
        return g
    for n in ('logical_and', 'logical_or', 'logical_xor'):
        d[n] = logical2(getattr(np, n))

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if is_obj(a) or is_obj(b):
            def f(x, y):
                for q in (x, y):
                    if isinstance(q, float) and (q != q or math.isinf(q)):
                        return (x is y) or (not is_sym(x) and not is_sym(y) and (x == y or (equal_nan and x != x and y != y)))
                return bool(abs(x - y) <= atol + rtol * abs(y))
            r = elementwise(f, 2)(_o(a), _o(b))
            return boolify(r)
        return np.isclose(a, b, rtol, atol, equal_nan)
    d['isclose'] = isclose
    d['allclose'] = lambda a, b, *r, **k: bool(np.all(isclose(a, b, *r, **k)))

    def array_equal(a, b, **k):
        if is_obj(a) or is_obj(b):
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b, **k)
    d['array_equal'] = array_equal

    def cmp(op):
        real = getattr(np, op)

        def g(a, b, *r, **k):
            return real(a, b, *r, **k)
        return g

    def einsum(spec, *ops, **k):
        if any(is_obj(o) for o in ops):
            ops = [np.asarray(o, dtype=object) for o in ops]
            return _einsum(spec, ops)
        return np.einsum(spec, *ops, **k)
    d['einsum'] = einsum

    def nansum(a, *r, **k):
        if is_obj(a):
            z = elementwise(lambda x: 0.0 if (isinstance(x, float) and x != x) else x, 1)(_o(a))
            return np.sum(z, *r, **k)
        return np.nansum(a, *r, **k)
    d['nansum'] = nansum

    def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
        if not is_obj(a) and not is_sym(a):
            return np.nan_to_num(a, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
        big = np.finfo(float).max

        def f(x):
            if is_sym(x):
                return x
            x = float(x)
            if x != x:
                return nan
            if math.isinf(x):
                return (big if posinf is None else posinf) if x > 0 else (-big if neginf is None else neginf)
            return x
        r = elementwise(f, 1)(a)
        if not copy:
            a[...] = r
            return a
        return r
    d['nan_to_num'] = nan_to_num

    def reducer(name, init):
        def g(a, *r, **k):
            if is_obj(a):
                z = elementwise(lambda x: init if (isinstance(x, float) and x != x) else x, 1)(_o(a))
                return getattr(np, name[3:])(z, *r, **k)
            return getattr(np, name)(a, *r, **k)
        return g
    d['nanmax'], d['nanmin'] = reducer('nanmax', -math.inf), reducer('nanmin', math.inf)

    def sort_order(x, kind=None):
        """stable argsort of one row; forks on symbolic comparisons, equal terms never compared"""
        order = []
        for i, v in enumerate(x):
            k = len(order)
            while k and v is not x[order[k - 1]] and bool(v < x[order[k - 1]]):
                k -= 1
            order.insert(k, i)
        return order

    def argsort(a, axis=-1, *r, **k):
        if not has_sym(a):
            return np.argsort(a, axis, *r, **k)
        a = np.asarray(_o(a))
        if axis is None:
            a, axis = a.ravel(), 0
        return np.apply_along_axis(lambda x: np.array(sort_order(list(x)), dtype=np.intp), axis, a) if a.ndim > 1 else np.array(sort_order(list(a)), dtype=np.intp)
    d['argsort'] = argsort
    d['argpartition'] = lambda a, kth, axis=-1, *r, **k: argsort(a, axis) if has_sym(a) else np.argpartition(np.asarray(a, dtype=float) if is_obj(a) else a, kth, axis, *r, **k)

    def sort(a, axis=-1, *r, **k):
        if not has_sym(a):
            return np.sort(a, axis, *r, **k)
        a = np.asarray(_o(a))
        if axis is None:
            a, axis = a.ravel(), 0
        return np.take_along_axis(a, argsort(a, axis), axis)
    d['sort'] = sort
    d['partition'] = lambda a, kth, axis=-1, *r, **k: sort(a, axis) if has_sym(a) else np.partition(a, kth, axis, *r, **k)

    def unique(a, *r, **k):
        if is_obj(a) and not has_sym(a):
            a = np.asarray(a).astype(float)
        return np.unique(a, *r, **k)
    d['unique'] = unique

    def sign(a):
        if is_sym(a) or is_obj(a):
            return elementwise(lambda x: (ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)) if is_sym(x) else float(np.sign(x))), 1)(_o(a))
        return np.sign(a)
    d['sign'] = sign

    def hypot(a, b):
        if any(is_sym(x) or is_obj(x) for x in (a, b)):
            return d['sqrt'](_o(a) * _o(a) + _o(b) * _o(b))
        return np.hypot(a, b)
    d['hypot'] = hypot

    def issubdtype(a, b):
        if a == np.dtype(object) and b in (np.floating, np.number, np.inexact):
            return True
        return np.issubdtype(undt(a), undt(b))
    d['issubdtype'] = issubdtype

    for n in ('float64', 'float32', 'double'):
        d[n] = _float_type(getattr(np, n))
    for n in ('float_',):
        d[n] = _float_type(np.float64)

    def int_cast(t):
        class I(metaclass=_F64Meta):
            _t = t
            dtype = np.dtype(t)

            def __new__(cls, v=0):
                if isinstance(v, SymInt):
                    return v
                if isinstance(v, SymReal):
                    return v.__trunc__()
                return t(v)
        I.__name__ = t.__name__
        return I

    class Linalg(types.ModuleType):
        def __getattr__(self, n):
            return getattr(np.linalg, n)

        def norm(self, x, ord=None, axis=None, **k):
            if is_obj(x) and ord in (None, 2):
                s = np.sum(np.asarray(x, dtype=object) ** 2, axis=axis)
                return d['sqrt'](s)
            return np.linalg.norm(x, ord=ord, axis=axis, **k)
    d['linalg'] = Linalg('linalg')

    def rec_fromarrays(arrays, names=None, **k):
        if any(is_obj(a) for a in arrays):
            return SymRec(arrays, names)
        return np.rec.fromarrays(arrays, names=names, **k)

    def save(file, a, *r, **k):
        if core.CUR is None or not (isinstance(a, SymRec) or is_obj(a)):
            return np.save(file, a, *r, **k)
        TOKENS.append(a.copy() if isinstance(a, SymRec) else np.array(a, copy=True))
        tok = f'SYMTOK:{len(TOKENS) - 1}'.encode()
        if hasattr(file, 'write'):
            file.write(tok)
        else:
            import os
            file = os.fspath(file)
            with open(file if file.endswith('.npy') else file + '.npy', 'wb') as f:
                f.write(tok)

    def load(file, *r, **k):
        if core.CUR is None:
            return np.load(file, *r, **k)
        import io
        if hasattr(file, 'read'):
            b = file.read()
        else:
            with open(file, 'rb') as f:
                b = f.read()
        if b.startswith(b'SYMTOK:'):
            a = TOKENS[int(b[7:])]
            return a.copy() if isinstance(a, SymRec) else np.array(a, copy=True)
        return np.load(io.BytesIO(b), *r, **k)
    d['save'], d['load'] = save, load

    class Rec(types.ModuleType):
        def __getattr__(self, n):
            return getattr(np.rec, n)
        fromarrays = staticmethod(rec_fromarrays)
    d['rec'] = Rec('rec')
    return P


# contents of files written by np.save with symbolic values: the file holds a reference into this list
TOKENS = []


class SymRec:
    """np.rec.fromarrays of symbolic arrays: a snapshot of its fields."""
    def __init__(self, arrays, names):
        if isinstance(names, str):
            names = [x.strip() for x in names.split(',')]
        shape = np.shape(arrays[0])
        for a in arrays:
            if np.shape(a) != shape:
                raise ValueError(f'array-shape mismatch in array (expected {shape}, got {np.shape(a)})')
        self._f = {n: np.array(a, copy=True) for n, a in zip(names, arrays)}
        self.shape = shape

    def __getitem__(self, n):
        return self._f[n]

    def copy(self):
        return SymRec(list(self._f.values()), list(self._f))


def _o(a):
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=object)
    return a


def _einsum(spec, ops):
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    dims = {}
    for lab, o in zip(ins, ops):
        if len(lab) != o.ndim:
            raise ValueError('einsum: operand has wrong dimensions')
        for c, n in zip(lab, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('einsum: operands could not be broadcast together')
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        tot = 0.0
        for s in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, s))
            term = 1
            for lab, o in zip(ins, ops):
                term = term * o[tuple(env[c] for c in lab)]
            tot = tot + term
        res[idx] = tot
    return res


# ------------------------------------------------------------------ numexpr

class NE(types.ModuleType):
    """numexpr with numexpr's own typing rules (masks ignored, true division, no exceptions)."""

    def __init__(self):
        super().__init__('numexpr')
        import numexpr
        self.__dict__['_real'] = numexpr

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)

    def evaluate(self, ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', **kw):
        fr = sys._getframe(kw.pop('_frame_depth', 1) if '_frame_depth' in kw else 1)
        loc = local_dict if local_dict is not None else fr.f_locals
        glo = global_dict if global_dict is not None else fr.f_globals
        tree = ast.parse(ex.strip(), mode='eval')
        names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - FUNCS.keys()
        env = {}
        for n in names:
            if n in loc:
                env[n] = loc[n]
            elif n in glo:
                env[n] = glo[n]
            else:
                raise KeyError(n)
        if not any(is_obj(v) for v in env.values()) and not is_obj(out):
            return self._real.evaluate(ex, local_dict=env, global_dict={}, out=out, order=order, casting=casting, **kw)
        eng = core.CUR
        old = eng.py_div
        eng.py_div = False
        try:
            kind, v = _ne_eval(tree.body, env)
        finally:
            eng.py_div = old
        v = np.asarray(v, dtype=object)
        if kind == 'bool':
            v = boolify(v)
        if kind == 'double' and v.dtype == object:
            v = np.frompyfunc(lambda x: float(x) if isinstance(x, (int, np.integer, np.floating)) else x, 1, 1)(v)
            v = np.asarray(v, dtype=object)
        if out is not None:
            if out.shape != v.shape:
                raise ValueError('non-broadcastable output operand in numexpr')
            tgt = out.data if isinstance(out, ma.MaskedArray) else out
            tgt[...] = v
            return out
        return v


def _kind(v):
    if isinstance(v, (bool, np.bool_, SymBool)):
        return 'bool'
    if isinstance(v, (int, np.integer, SymInt)):
        return 'int'
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            f = v.ravel()
            if f.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in f):
                return 'bool'
            if f.size and all(isinstance(x, (int, np.integer, SymInt)) for x in f):
                return 'int'
            return 'double'
        if v.dtype == bool:
            return 'bool'
        if np.issubdtype(v.dtype, np.integer):
            return 'int'
    return 'double'


def _f_div(a, b):
    if not is_sym(a) and not is_sym(b):
        a, b = float(a), float(b)
        if b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
        return a / b
    return a / b


def _ew(f, *args):
    plain = [a.data if isinstance(a, ma.MaskedArray) else a for a in args]
    return np.frompyfunc(f, len(args), 1)(*plain)


def _where(c, a, b):
    return _ew(lambda c, a, b: ite(c, a, b), c, a, b)


def _m1(name):
    def f(x):
        if is_sym(x):
            return getattr(x, name)() if name != 'abs' else abs(x)
        return float(getattr(np, name)(float(x))) if name != 'abs' else abs(x)
    return lambda a: _ew(f, a)


FUNCS = {'where': _where, 'sqrt': _m1('sqrt'), 'exp': _m1('exp'), 'log': _m1('log'), 'sin': _m1('sin'), 'cos': _m1('cos'),
         'tan': _m1('tan'), 'arcsin': _m1('arcsin'), 'arccos': _m1('arccos'), 'arctan': _m1('arctan'), 'abs': _m1('abs'),
         'floor': lambda a: _ew(lambda x: math.floor(x), a), 'ceil': lambda a: _ew(lambda x: math.ceil(x), a)}

_CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
        ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


def _ne_eval(n, env):
    if isinstance(n, ast.Constant):
        return _kind(n.value), n.value
    if isinstance(n, ast.Name):
        v = env[n.id]
        if isinstance(v, ma.MaskedArray):
            v = v.data
        return _kind(v), v
    if isinstance(n, ast.UnaryOp):
        k, v = _ne_eval(n.operand, env)
        if isinstance(n.op, ast.USub):
            return k, _ew(lambda x: -x, v)
        if isinstance(n.op, ast.UAdd):
            return k, v
        if isinstance(n.op, ast.Invert):
            return k, _ew(lambda x: (not x) if isinstance(x, (bool, np.bool_)) else ~x, v)
    if isinstance(n, ast.BinOp):
        (ka, a), (kb, b) = _ne_eval(n.left, env), _ne_eval(n.right, env)
        t = type(n.op)
        if t in (ast.BitAnd, ast.BitOr):
            f = (lambda x, y: x & y) if t is ast.BitAnd else (lambda x, y: x | y)
            return 'bool', _ew(f, a, b)
        k = 'double' if 'double' in (ka, kb) else 'int'
        if t is ast.Add:
            return k, _ew(lambda x, y: x + y, a, b)
        if t is ast.Sub:
            return k, _ew(lambda x, y: x - y, a, b)
        if t is ast.Mult:
            return k, _ew(lambda x, y: x * y, a, b)
        if t is ast.Div:
            return 'double', _ew(_f_div, a, b)   # python 3: numexpr uses true division
        if t is ast.Mod:
            return k, _ew(lambda x, y: x % y, a, b)
        if t is ast.Pow:
            return k, _ew(lambda x, y: x ** y, a, b)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        (ka, a), (kb, b) = _ne_eval(n.left, env), _ne_eval(n.comparators[0], env)
        return 'bool', _ew(_CMP[type(n.ops[0])], a, b)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in FUNCS:
        args = [_ne_eval(a, env) for a in n.args]
        if n.func.id == 'where':
            k = 'double' if 'double' in (args[1][0], args[2][0]) else args[1][0]
        elif n.func.id == 'abs':
            k = args[0][0]
        else:
            k = 'double'
        return k, FUNCS[n.func.id](*[v for _, v in args])
    raise Unsupported(f'numexpr: {ast.dump(n)[:80]}')


# ------------------------------------------------------------------ patching

class Patch:
    """Replaces numpy/numexpr (and given names) in the globals of the pyg2p modules; undone on exit."""

    def __init__(self, extra=(), np_proxy=True, builtins=(), prefixes=('pyg2p',)):
        self.extra = list(extra)   # (object, attribute, value)
        self.np_proxy = np_proxy
        self.builtins = dict(builtins)
        self.prefixes = prefixes
        self.saved = []

    def set(self, obj, name, val):
        d = obj.__dict__
        self.saved.append((obj, name, d.get(name, KeyError) if not isinstance(obj, type) else d.get(name, KeyError)))
        setattr(obj, name, val)

    def __enter__(self):
        import numexpr
        if self.np_proxy:
            P, N = make_np(), NE()
            real_np_funcs = {id(getattr(np, k)): v for k, v in P.__dict__.items() if not k.startswith('_') and hasattr(np, k)}
            for name, mod in list(sys.modules.items()):
                if not any(name == p or name.startswith(p + '.') for p in self.prefixes) or mod is None:
                    continue
                for k, v in list(mod.__dict__.items()):
                    if v is np:
                        self.set(mod, k, P)
                    elif v is numexpr:
                        self.set(mod, k, N)
                    elif v is numexpr.evaluate:
                        self.set(mod, k, N.evaluate)
                    elif id(v) in real_np_funcs and callable(v) and v is not None and not isinstance(v, (int, float, bool, type)):
                        self.set(mod, k, real_np_funcs[id(v)])
                    elif hasattr(v, 'py_func') and callable(v):
                        self.set(mod, k, v.py_func)   # numba: the python function it compiles
                for k, v in self.builtins.items():
                    self.set(mod, k, v)
            self.set(ma.MaskedArray, 'astype', ma_astype)
            self.set(ma.core._DomainedBinaryOperation, '__call__', ma_domained)
        for obj, name, val in self.extra:
            self.set(obj, name, val)
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            if old is KeyError:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.saved = []
