"""Symbolic executor: proxies over z3 terms, path exploration by re-execution.

A *body* is a function body(t).  t hands out inputs (symbolic here, concrete in replay mode),
the body calls the real code under test on them and states obligations with t.check / t.eq.
"""
import dis
import math
import re
import sys
import time
import traceback
from fractions import Fraction

import z3
from . import algebra


class Steer(BaseException):
    """Base of everything the engine uses to leave a path: not an Exception on purpose."""


class Abort(Steer):
    """The path is infeasible or cut by an assumption."""


class Unsupported(Steer):
    """The engine cannot follow the code here (the path becomes inconclusive)."""


class Budget(Steer):
    """Path or time budget of the job is used up."""


CUR = None  # the running Engine


def engine():
    if CUR is None:
        raise Unsupported('symbolic value used outside an engine run')
    return CUR


NAN = float('nan')


def _frac(v):
    return z3.RatVal(Fraction(v).numerator, Fraction(v).denominator)


def is_num(v):
    import numpy as np
    return isinstance(v, (int, float, Fraction, np.integer, np.floating, np.bool_)) and not isinstance(v, complex)


def is_sym(v):
    return isinstance(v, Sym)


class Sym:
    __slots__ = ('e',)

    def __repr__(self):
        return f'<{type(self).__name__} {str(self.e)[:60]}>'

    def __format__(self, spec):
        return engine().fmt(self, spec)

    def __str__(self):
        return engine().fmt(self, '')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def to_bool_expr(v):
    import numpy as np
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, Sym):
        return v.e != 0
    if isinstance(v, np.ndarray) and v.shape == ():
        return to_bool_expr(v.item())
    if isinstance(v, (int, float)):
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    raise Unsupported(f'not a boolean: {v!r}')


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return engine().branch(self.e)

    def __and__(self, o):
        import numpy as np
        if isinstance(o, np.ndarray) and o.shape:
            return NotImplemented
        if isinstance(o, (Sym, bool, np.bool_)):
            return mk_bool(z3.And(self.e, to_bool_expr(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        import numpy as np
        if isinstance(o, np.ndarray) and o.shape:
            return NotImplemented
        if isinstance(o, (Sym, bool, np.bool_)):
            return mk_bool(z3.Or(self.e, to_bool_expr(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, to_bool_expr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def logical_not(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        try:
            return mk_bool(self.e == to_bool_expr(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()


def _arr(o):
    import numpy as np
    return isinstance(o, np.ndarray) and o.shape != ()


def _intern(f):
    """Constants that differ by a few units in the last place (computed in another order) are taken as the same number."""
    m, x = math.frexp(f)
    if CUR is None or m == 0 or m * (1 << 30) == int(m * (1 << 30)):
        return f
    k = round(m * (1 << 48))
    d = CUR.consts
    for j in (k, k - 1, k + 1):
        if (x, j) in d:
            return d[x, j]
    n = round(1 / f)
    if 1 < abs(n) <= 100000 and 1.0 / n == f:
        f = Fraction(1, n)      # the float nearest to 1/n stands for 1/n
    d[x, k] = f
    return f


def lift(o):
    """A python/numpy number or Sym as (kind, z3 expr); None when it is not a finite number."""
    import numpy as np
    if isinstance(o, np.ndarray) and o.shape == ():
        o = o.item()
    if isinstance(o, SymInt):
        return 'i', o.e
    if isinstance(o, SymReal):
        return 'r', o.e
    if isinstance(o, SymBool):
        return 'i', z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, (bool, np.bool_)):
        return 'i', z3.IntVal(int(o))
    if isinstance(o, (int, np.integer)):
        return 'i', z3.IntVal(int(o))
    if isinstance(o, Fraction):
        return 'r', _frac(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if math.isfinite(f):
            return 'r', _frac(_intern(f))
        return 'x', f
    return None


def _real(kind, e):
    return z3.ToReal(e) if kind == 'i' else e


from numpy import float64 as _F64


def mk_num(kind, e):
    e = z3.simplify(e)
    if kind == 'i':
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if z3.is_rational_value(e):
        fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
        f = float(fr) if abs(fr) < Fraction(10) ** 300 else None
        if f is not None and Fraction(f) == fr:
            return f if CUR is not None and CUR.py_div else _F64(f)   # numpy semantics of division by zero
    return SymReal(e)


class SymNum(Sym):
    __slots__ = ()

    # ---- arithmetic
    def _bin(self, o, op, swap=False):
        import numpy as np
        if _arr(o):
            f = np.frompyfunc((lambda a: ARITH[op](a, self)) if swap else (lambda a: ARITH[op](self, a)), 1, 1)
            return f(o)
        lo = lift(o)
        if lo is None:
            return NotImplemented
        a, b = lift(self), lo
        if lo[0] == 'x':
            return _inf_arith(op, self, lo[1], swap)
        if swap:
            a, b = b, a
        return _arith(op, a, b)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __neg__(self): return 0 - self
    def __pos__(self): return self

    def __abs__(self):
        k, e = lift(self)
        return mk_num(k, z3.If(e >= 0, e, -e))

    def fabs(self):
        return abs(self)

    def __pow__(self, p, mod=None):
        return sym_pow(self, p)

    def __rpow__(self, b):
        return sym_pow(b, self)

    # ---- comparison
    def _cmp(self, o, op):
        lo = lift(o)
        if lo is None:
            if op == '==':
                return NotImplemented
            if op == '!=':
                return NotImplemented
            return NotImplemented
        if lo[0] == 'x':
            f = lo[1]
            if f != f:
                return op == '!='
            return {'==': False, '!=': True, '<': f > 0, '<=': f > 0, '>': f < 0, '>=': f < 0}[op]
        (ka, a), (kb, b) = lift(self), lo
        if ka != kb:
            a, b = _real(ka, a), _real(kb, b)
        e = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return mk_bool(e)

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __bool__(self):
        k, e = lift(self)
        return engine().branch(e != 0)

    # ---- functions numpy calls on objects
    def sqrt(self): return sym_sqrt(self)
    def exp(self): return sym_fun('exp', self)
    def log(self): return sym_fun('log', self)
    def sin(self): return sym_fun('sin', self)
    def cos(self): return sym_fun('cos', self)
    def tan(self): return sym_fun('tan', self)
    def arcsin(self): return sym_fun('arcsin', self)
    def arccos(self): return sym_fun('arccos', self)
    def arctan(self): return sym_fun('arctan', self)
    def deg2rad(self): return self * DEG
    def radians(self): return self * DEG
    def rad2deg(self): return self / DEG
    def degrees(self): return self / DEG
    def conjugate(self): return self
    def square(self): return self * self
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False
    def item(self): return self
    def copy(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    def rint(self):
        return self.__round__()

    def trunc(self):
        return self.__trunc__()


DEG = math.pi / 180


def _in_str_format(f):
    """Is frame f evaluating 'text %d' % value? (int % symbolic goes to __rmod__ and never asks for an int)"""
    code = f.f_code.co_code
    return dis.opname[code[f.f_lasti]] == 'BINARY_OP' and code[f.f_lasti + 1] in (6, 19)


class SymInt(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __int__(self):
        if _in_str_format(sys._getframe(1)) and engine().exact_strings in (False, 'tokens'):
            return 0
        return engine().concretize(self)
    __index__ = __int__

    def __float__(self):
        return float(engine().concretize(self))

    def __hash__(self):
        if engine().exact_strings == 'tokens':
            return 0    # only symbolic integers are keys: equality decides
        return hash(engine().concretize(self))

    def __trunc__(self): return self
    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def floor(self): return self
    def ceil(self): return self
    def __invert__(self): return -self - 1
    def bit_length(self): return int(self).bit_length()
    def __and__(self, o): return int(self) & int(o)
    def __or__(self, o): return int(self) | int(o)
    def __lshift__(self, o): return self * (2 ** int(o))
    def __rshift__(self, o): return self // (2 ** int(o))
    def is_integer(self): return True


class SymReal(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __float__(self):
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        # python truncates towards zero; the integer itself is then enumerated by the solver
        return engine().concretize(self.__trunc__())

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __trunc__(self):
        e = self.e
        return mk_num('i', z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __floor__(self):
        return mk_num('i', z3.ToInt(self.e))

    def floor(self):
        return mk_num('r', z3.ToReal(z3.ToInt(self.e)))

    def __ceil__(self):
        return mk_num('i', -z3.ToInt(-self.e))

    def ceil(self):
        return mk_num('r', z3.ToReal(-z3.ToInt(-self.e)))

    def __round__(self, n=None):
        s = 10 ** (n or 0)
        x = self.e * s
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        half = _frac(Fraction(1, 2))
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        if n is None:
            return mk_num('i', r)
        return mk_num('r', z3.ToReal(r) / s)

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))


ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
         '//': lambda a, b: a // b, '%': lambda a, b: a % b}


def _inf_arith(op, s, f, swap):
    """symbolic finite s with inf/nan f."""
    if f != f:
        return NAN
    if op == '+':
        return f
    if op == '-':
        return f if swap else -f
    if op == '*':
        if bool(s == 0):
            return NAN
        return f if bool(s > 0) else -f
    if op == '/':
        if not swap:
            return 0.0
        if bool(s == 0):
            return NAN
        return f if bool(s > 0) else -f
    raise Unsupported('inf arithmetic ' + op)


def _arith(op, a, b):
    (ka, x), (kb, y) = a, b
    both = ka == 'i' and kb == 'i'
    if op in '+-*':
        if not both:
            x, y = _real(ka, x), _real(kb, y)
        e = x + y if op == '+' else x - y if op == '-' else x * y
        return mk_num('i' if both else 'r', e)
    # divisions
    eng = engine()
    zero = eng.branch(y == 0) if not (_const_nonzero(y) or (op == '/' and eng.known_positive(_real(kb, y)))) else False
    if zero:
        if both or eng.py_div:
            raise ZeroDivisionError('division by zero')
        # numpy floats: inf/nan with a warning
        if op != '/':
            return NAN
        if eng.branch(x == 0):
            return NAN
        return math.inf if eng.branch(x > 0) else -math.inf
    if op == '/':
        x, y = _real(ka, x), _real(kb, y)
        sx = z3.simplify(x)
        if z3.is_rational_value(sx) and sx.numerator_as_long() == 0:
            import numpy as np
            return np.float64(0.0)
        if sx.eq(z3.simplify(y)):
            return 1.0
        return mk_num('r', x / y)
    if both:
        pos = True if z3.is_int_value(y) and y.as_long() > 0 else False if z3.is_int_value(y) else eng.branch(y > 0)
        q = x / y if pos else (-x) / (-y)   # z3: divisor positive -> floor
        return mk_num('i', q if op == '//' else x - y * q)
    x, y = _real(ka, x), _real(kb, y)
    q = z3.ToReal(z3.ToInt(x / y))
    return mk_num('r', q if op == '//' else x - y * q)


def _const_nonzero(y):
    y = z3.simplify(y)
    if z3.is_int_value(y):
        return y.as_long() != 0
    if z3.is_rational_value(y):
        return y.numerator_as_long() != 0
    return False


def sym_pow(b, p):
    import numpy as np
    if _arr(p) or _arr(b):
        return NotImplemented
    if isinstance(p, SymInt):
        p = int(p)
    if is_num(p):
        if float(p) == int(p):
            n = int(p)
            if n == 0:
                return 1.0 if isinstance(b, SymReal) else 1
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else 1 / r
        if float(p) == 0.5:
            return sym_sqrt(b)
    return sym_fun2('pow', b, p)


def sym_sqrt(x):
    k, e = lift(x)
    eng = engine()
    e = z3.simplify(_real(k, e))
    key = ('sqrt', e)
    for (n, f), v in eng.funs:
        if n == 'sqrt' and f.eq(e):
            return v
    if eng.branch(e < 0):
        return NAN
    s = eng.fresh_real('sqrt')
    eng.add(z3.And(s.e >= 0, s.e * s.e == e))
    eng.funs.append((('sqrt', e), s))
    return s


_UF = {}


def sym_fun(name, x):
    """Unary transcendental function: the same argument gives the same value, plus a few bounds."""
    k, e = lift(x)
    eng = engine()
    e = z3.simplify(_real(k, e))
    if name == 'tan':
        return sym_fun('sin', x) / sym_fun('cos', x)
    f = _UF.setdefault(name, z3.Function('f_' + name, z3.RealSort(), z3.RealSort()))
    for (n, g), _ in eng.funs:
        if n == name and not g.eq(e) and algebra.same_ratio(g, e):
            e = g   # the same argument, written differently
            break
    if name == 'exp':
        for (n, g), v in eng.funs:
            if n == name and g.eq(e):
                return v
    r = f(e)
    one = z3.RealVal(1)
    if not any(n == name and g.eq(e) for (n, g), _ in eng.funs):
        eng.funs.append(((name, e), None))
        if name in ('sin', 'cos'):
            fs = _UF.setdefault('sin', z3.Function('f_sin', z3.RealSort(), z3.RealSort()))
            fc = _UF.setdefault('cos', z3.Function('f_cos', z3.RealSort(), z3.RealSort()))
            eng.add(z3.And(fs(e) * fs(e) + fc(e) * fc(e) == one, fs(e) <= 1, fs(e) >= -1, fc(e) <= 1, fc(e) >= -1))
        elif name == 'exp':
            # a constant of its own: congruence is kept by the canonical argument
            v = eng.fresh_real('exp')
            r = v.e
            eng.funs[-1] = ((name, e), v)
            eng.add(r > 0)
            if algebra.is_linear(e):
                eng.add(z3.If(e == 0, r == 1, z3.If(e < 0, r < 1, r > 1)))
            else:
                sg = algebra.Signs(eng._ask_linear)
                m = z3.simplify(-e)
                if sg.pos(m):
                    eng.add(r < 1)
                elif sg.nonneg(m):
                    eng.add(r <= 1)
            return v
        elif name in ('arccos', 'arcsin'):
            if eng.branch(z3.Or(e > 1, e < -1)):
                return NAN
            if name == 'arccos':
                fc = _UF.setdefault('cos', z3.Function('f_cos', z3.RealSort(), z3.RealSort()))
                eng.add(z3.And(r >= 0, r < _frac(Fraction(3142, 1000)), fc(r) == e, (e == 1) == (r == 0)))
            else:
                eng.add(z3.And(r > -2, r < 2))
        elif name == 'log':
            if eng.branch(e <= 0):
                return NAN
    return mk_num('r', r)


def sym_fun2(name, a, b):
    (ka, x), (kb, y) = lift(a), lift(b)
    x, y = z3.simplify(_real(ka, x)), z3.simplify(_real(kb, y))
    f = _UF.setdefault(name, z3.Function('f_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort()))
    r = f(x, y)
    if name == 'pow':
        engine().add(z3.Implies(x > 0, r > 0))
        engine().add(z3.Implies(x == 1, r == 1))
        if z3.is_rational_value(y) and y.numerator_as_long() > 0:
            engine().add(z3.Implies(x == 0, r == 0))
            engine().add(z3.Implies(z3.And(x > 0, x < 1), r < 1))
    return mk_num('r', r)


def ite(c, a, b):
    """if-then-else without forking when both sides are finite numbers."""
    if not isinstance(c, SymBool):
        return a if bool(c) else b
    la, lb = lift(a), lift(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mk_bool(z3.If(c.e, to_bool_expr(a), to_bool_expr(b)))
    if la is None or lb is None or la[0] == 'x' or lb[0] == 'x':
        return a if bool(c) else b
    (ka, x), (kb, y) = la, lb
    if ka != kb:
        return mk_num('r', z3.If(c.e, _real(ka, x), _real(kb, y)))
    return mk_num(ka, z3.If(c.e, x, y))


class Stats:
    def __init__(self):
        self.paths = self.aborted = self.branches = self.queries = self.obligations = 0
        self.discharged = self.inconclusive = self.validated = self.mismatch = 0
        self.solver_s = 0.0
        self.covered = {}
        self.reasons = {}
        self.samples = []

    def merge(self, o):
        for k in ('paths', 'aborted', 'branches', 'queries', 'obligations', 'discharged', 'inconclusive', 'validated', 'mismatch', 'solver_s'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.covered.items():
            self.covered[k] = self.covered.get(k, 0) + v
        for k, v in o.reasons.items():
            self.reasons[k] = self.reasons.get(k, 0) + v
        self.samples += o.samples[:2]


class Engine:
    def __init__(self, max_paths=200000, time_limit=600, query_ms=20000):
        self.max_paths, self.time_limit, self.query_ms = max_paths, time_limit, query_ms
        self.st = Stats()
        self.py_div = False
        self.tol = 1e-6
        self.t0 = time.time()

    # ---------- solver
    def _check(self, *extra):
        self.st.queries += 1
        t = time.time()
        s = self.solver
        if extra:
            s.push()
            for x in extra:
                s.add(x)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if extra:
            s.pop()
        self.st.solver_s += time.time() - t
        return r, m

    def add(self, e):
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def _model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise Abort()
            if r != z3.sat:
                raise Unsupported('solver: unknown on a path condition')
            self.model = m
        return self.model

    # ---------- decisions
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.decided.get(e.get_id())
        if k is not None:
            return k[1]
        d = self._branch(e)
        n = z3.simplify(z3.Not(e))
        self.decided[e.get_id()] = (e, d)
        self.decided[n.get_id()] = (n, not d)
        return d

    def _branch(self, e):
        if not self.nosigns:
            e2 = z3.simplify(algebra.tidy(e, algebra.Signs(self._ask_linear)))
            if z3.is_true(e2) or z3.is_false(e2):
                return z3.is_true(e2)
            e = e2
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, bool):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            self.add(e if d else z3.Not(e))
            return d
        self.st.branches += 1
        if time.time() - self.t0 > self.time_limit:
            raise Budget('time')
        m = self._model()
        v = m.eval(e, model_completion=True)
        if not (z3.is_true(v) or z3.is_false(v)):
            r, m2 = self._check(e)
            v = z3.BoolVal(r == z3.sat)
            if r == z3.sat:
                self.model = m2
        d = z3.is_true(v)
        other = z3.Not(e) if d else e
        r, m2 = self._check(other)
        if r == z3.unknown:
            self.unknown_branch = True
        if r != z3.unsat:
            self.work.append(self.prefix[:self.pos] + [not d])
        self.prefix = self.prefix[:self.pos] + [d]
        self.pos += 1
        keep = self.model
        self.solver.add(e if d else z3.Not(e))
        self.model = keep
        return d

    def _ask_linear(self, x):
        """Is the linear fact x implied by the linear part of the path condition?  (own solver: quick and reproducible)"""
        if not algebra.is_linear(x):
            return False
        if self.lin is None:
            self.lin, self.nlin = z3.Solver(), 0
            self.lin.set('timeout', 5000)
        al = self.solver.assertions()
        n = len(al)
        for i in range(self.nlin, n):
            if algebra.is_linear(al[i]):
                self.lin.add(al[i])
        self.nlin = n
        self.st.queries += 1
        t = time.time()
        self.lin.push()
        self.lin.add(z3.Not(x))
        r = self.lin.check()
        self.lin.pop()
        self.st.solver_s += time.time() - t
        return r == z3.unsat

    def known_positive(self, e):
        """e > 0 follows structurally from linear facts of the path (recorded, so that re-executions agree)."""
        e = z3.simplify(e)
        if algebra.is_leaf(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d, str):
                self.pos += 1
                return d == 'p+'
            raise Unsupported('non-deterministic re-execution')

        p = algebra.Signs(self._ask_linear).pos(e)
        self.prefix = self.prefix[:self.pos] + ['p+' if p else 'p?']
        self.pos += 1
        return p

    def concretize(self, s):
        if not isinstance(s, Sym):
            return int(s)
        e = s.e
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            if self.pos < len(self.prefix):
                # replayed decisions carry the value they were taken for
                kind = self.prefix[self.pos]
                if isinstance(kind, tuple):
                    _, val, eqd = kind
                    self.pos += 1
                    if eqd:
                        self.add(e == val)
                        return val
                    self.add(e != val)
                    continue
                raise Unsupported('non-deterministic re-execution')
            m = self._model()
            self.st.branches += 1
            if time.time() - self.t0 > self.time_limit:
                raise Budget('time')
            v = m.eval(e, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported('cannot evaluate an integer')
            val = v.as_long()
            r, _ = self._check(e != val)
            if r != z3.unsat:
                self.work.append(self.prefix[:self.pos] + [('v', val, False)])
            self.prefix = self.prefix[:self.pos] + [('v', val, True)]
            self.pos += 1
            keep = self.model
            self.solver.add(e == val)
            self.model = keep
            return val

    def fmt(self, s, spec):
        if isinstance(s, SymBool):
            return str(bool(s))
        if self.exact_strings == 'text':
            from .text import number
            return number(s, spec)
        if isinstance(s, SymInt) and self.exact_strings == 'digits' and re.fullmatch(r'(0\d+)?d?', spec):
            return self.digits(s).rjust(int(spec.rstrip('d') or 0), '0')
        if isinstance(s, SymInt) and self.exact_strings == 'tokens' and spec in ('', 'd'):
            k = f'\u27ea{s.e.get_id()}\u27eb'
            self.tokens[k] = s
            return k
        if isinstance(s, SymInt) and self.exact_strings:
            return format(self.concretize(s), spec)
        return '<sym>'

    def digits(self, s):
        """A text standing for a symbolic integer >= 0: one private character per decimal digit"""
        key = s.e.get_id()
        if key in self.digit_texts:
            return self.digit_texts[key][1]
        if bool(s < 0):
            raise Unsupported('text of a negative number')
        n = 1
        while not bool(s < 10 ** n):
            n += 1
            if n > 18:
                raise Unsupported('text of a large number')
        chars, total = [], 0
        for i in range(n):
            c = chr(0xE000 + len(self.digit_vars))
            v = self.fresh_int('digit')
            self.digit_vars[c] = v
            self.add(z3.And(v.e >= 0, v.e <= 9))
            chars.append(c)
            total = total * 10 + v
        self.add(total.e == s.e)
        self.digit_texts[key] = s, ''.join(chars)
        return ''.join(chars)

    exact_strings = False
    char_vars = {}   # private characters standing for symbolic ones (engine/text.py)
    tokens = {}   # texts standing for symbolic integers (exact_strings='tokens')

    def fresh_real(self, stem):
        self.nfresh += 1
        return SymReal(z3.Real(f'{stem}!{self.nfresh}'))

    def fresh_int(self, stem):
        self.nfresh += 1
        return SymInt(z3.Int(f'{stem}!{self.nfresh}'))

    # ---------- running
    def explore(self, body, on_path=None):
        """Runs body(t) on every feasible path.  Returns the list of candidate violations."""
        global CUR
        self.work = [[]]
        self.cands = []
        self.complete = True
        while self.work:
            if self.st.paths + self.st.aborted >= self.max_paths or time.time() - self.t0 > self.time_limit:
                self.complete = False
                break
            if len(self.cands) >= 30:
                self.complete = False
                break
            self.prefix = self.work.pop()
            self.pos = 0
            self.solver = z3.Solver()
            self.solver.set('timeout', self.query_ms)
            self.model = None
            self.nfresh = 0
            self.funs = []
            self.consts = {}
            self.hints = {}
            self.lin = None
            self.decided = {}
            self.tokens, self.digit_texts, self.digit_vars, self.char_vars = {}, {}, {}, {}
            self.unknown_branch = False
            t = SymT(self)
            CUR = self
            try:
                exc = None
                try:
                    body(t)
                except Abort:
                    self.st.aborted += 1
                    continue
                except Budget:
                    self.complete = False
                    break
                except Unsupported as u:
                    self._inconclusive(t, f'unsupported: {u}', body)
                    continue
                except Exception as ex:  # raised by the code under test (or an engine limit): replay decides
                    exc = ex
                    tb = traceback.extract_tb(ex.__traceback__)
                    where = ' <- '.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in reversed(tb[-4:]))
                    exc_txt = f'{type(ex).__name__}: {ex} @ {where}'
                try:
                    self._finish(t, exc, exc_txt if exc else None, body, on_path)
                except Abort:
                    self.st.aborted += 1
                except Unsupported as u:
                    self._inconclusive(t, f'unsupported: {u}', body)
                except Budget:
                    self.complete = False
                    break
            finally:
                CUR = None
        return self.cands

    def _note(self, r):
        self.st.reasons[r] = self.st.reasons.get(r, 0) + 1

    def _inconclusive(self, t, reason, body):
        self.st.inconclusive += 1
        self._note(reason[:160])
        # still try the real code on one input of this path
        try:
            r, m = self._check()
            if m is not None:
                self.cands.append({'label': 'inconclusive path', 'soft': True, 'inputs': t.inputs_of(m), 'detail': reason})
                if sum(1 for c in self.cands if c.get('soft')) > 12:
                    self.cands.pop()
        except Steer:
            pass

    def _finish(self, t, exc, exc_txt, body, on_path):
        self.st.paths += 1
        for c in t.covers:
            self.st.covered[c] = self.st.covered.get(c, 0) + 1
        if exc is not None:
            self.st.obligations += 1
            m = self._model()
            self.cands.append({'label': 'unexpected exception', 'inputs': t.inputs_of(self._nice_model(t) or m), 'detail': exc_txt})
            return
        obl = [(l, e, mg) for i, (l, e, mg) in enumerate(t.obls) if not z3.is_true(z3.simplify(e)) and not self._easy(i)]
        self.st.obligations += len(t.obls)
        trivially = len(t.obls) - len(obl)
        self.st.discharged += trivially
        if obl:
            # cheap refutation: a model of the path may already break an obligation
            try:
                m0 = self._nice_model(t) or self._model()
            except Unsupported:
                m0 = None
            bad = {}
            for (l, e, mg) in obl:
                if m0 is not None and l not in bad and z3.is_false(m0.eval(e, model_completion=True)) and len(bad) < 3:
                    bad[l] = m0
            if bad:
                for l, m in bad.items():
                    self.cands.append({'label': l, 'inputs': t.inputs_of(m), 'detail': ''})
                return
            r, m = self._check(z3.Or([z3.Not(e) for (_, e, _) in obl]))
            if r == z3.unknown:
                # one by one
                r = z3.unsat
                for (l, e, mg) in obl:
                    r1, m1 = self._check(z3.Not(e))
                    if r1 == z3.unsat:
                        self.st.discharged += 1
                    elif r1 == z3.unknown:
                        self.st.inconclusive += 1
                        self._note(f'solver unknown: {l}')
                        if m0 is not None and sum(1 for c in self.cands if c.get('soft')) < 12:
                            self.cands.append({'label': l, 'soft': True, 'inputs': t.inputs_of(m0), 'detail': 'undecided'})
                    else:
                        r, m = r1, m1
                        break
            elif r == z3.unsat:
                self.st.discharged += len(obl)
            if r == z3.sat:
                # find which, with a margin so that floating point replay shows it too
                done = set()
                for (l, e, mg) in obl:
                    if l in done:
                        continue
                    best = None
                    for c in ([mg] if mg is not None else []) + [z3.Not(e)]:
                        r1, m1 = self._check(c)
                        if r1 == z3.sat:
                            best = self._nice_model(t, c) or m1
                            break
                    if best is not None:
                        done.add(l)
                        self.cands.append({'label': l, 'inputs': t.inputs_of(best), 'detail': t.detail(best, l)})
                    if len(done) >= 3:
                        break
                return
        if on_path:
            on_path(self, t)

    def _easy(self, i):
        """Algebraic part of an obligation: same rational function / sign of a structured term."""
        h = self.hints.get(i)
        if h is None:
            return False
        kind, x, y = h
        if kind == 'eq':
            return algebra.same_ratio(x, y)
        if self.nosigns:
            return False
        if not (z3.is_rational_value(x) and x.numerator_as_long() == 0):
            return False

        def ask(e):
            self.solver.set('timeout', 2000)
            r, _ = self._check(z3.Not(e))
            self.solver.set('timeout', self.query_ms)
            return r == z3.unsat
        return algebra.Signs(ask).nonneg(y)

    nosigns = False

    def _nice_model(self, t, *extra):
        """Prefers small 'round' real inputs (exact in floating point)."""
        reals = [v.e for (k, v) in t.inputs if isinstance(v, SymReal)]
        if not reals or len(reals) > 60:
            return None
        self.solver.push()
        try:
            for x in extra:
                self.solver.add(x)
            self.solver.set('timeout', 3000)
            ints = []
            for i, e in enumerate(reals):
                k = z3.Int(f'nice!{i}')
                ints.append(z3.And(e * 8 == z3.ToReal(k)))
            self.solver.add(*ints)
            self.st.queries += 1
            t0 = time.time()
            r = self.solver.check()
            self.st.solver_s += time.time() - t0
            return self.solver.model() if r == z3.sat else None
        finally:
            self.solver.set('timeout', self.query_ms)
            self.solver.pop()


def model_value(m, v):
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymReal):
        r = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        if z3.is_rational_value(r):
            fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
            return float(fr)
        return float('nan')
    return v


class SymT:
    """The t of a symbolic run."""
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.inputs = []
        self.names = set()
        self.obls = []
        self.covers = set()
        self.obs = {}

    def _name(self, n):
        if n in self.names:
            raise RuntimeError(f'duplicate input {n}')
        self.names.add(n)
        return n

    def real(self, name, lo=-1e6, hi=1e6):
        v = SymReal(z3.Real(self._name(name)))
        self.inputs.append((name, v))
        if lo is not None:
            self.eng.add(v.e >= _frac(lo))
        if hi is not None:
            self.eng.add(v.e <= _frac(hi))
        return v

    def int(self, name, lo, hi):
        v = SymInt(z3.Int(self._name(name)))
        self.inputs.append((name, v))
        self.eng.add(z3.And(v.e >= lo, v.e <= hi))
        return v

    def bool(self, name):
        v = SymBool(z3.Bool(self._name(name)))
        self.inputs.append((name, v))
        return v

    def flag(self, name):
        """A boolean decided (forked) right away."""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            i = 0
        else:
            i = self.eng.concretize(self.int(name, 0, len(options) - 1))
        return options[i]

    def conc_int(self, name, lo, hi):
        return self.eng.concretize(self.int(name, lo, hi))

    def assume(self, c):
        e = to_bool_expr(c)
        if z3.is_false(z3.simplify(e)):
            raise Abort()
        self.eng.add(e)
        self.eng._model()

    def check(self, label, c, margin=None):
        self.obls.append((label, to_bool_expr(c), margin))

    def eq(self, label, a, b):
        ea = _eq_expr(a, b, self.eng.tol)
        if ea is None:
            self.obls.append((label, z3.BoolVal(False), None))
            return
        e, margin = ea
        if not z3.is_true(e) and margin is not None:
            (ka, x), (kb, y) = lift(a), lift(b)
            self.eng.hints[len(self.obls)] = ('eq', z3.simplify(_real(ka, x)), z3.simplify(_real(kb, y)))
        self.obls.append((label, e, margin))

    def le(self, label, a, b):
        (ka, x), (kb, y) = lift(a), lift(b)
        x, y = _real(ka, x), _real(kb, y)
        self.eng.hints[len(self.obls)] = ('le', z3.simplify(x), z3.simplify(y))
        self.obls.append((label, x <= y + _frac(self.eng.tol) * (1 + z3.If(y >= 0, y, -y)), x > y + z3.RealVal('1/100') * (1 + z3.If(y >= 0, y, -y))))

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, v):
        self.obs[name] = v

    def inputs_of(self, m):
        return {k: model_value(m, v) for k, v in self.inputs}

    def detail(self, m, label):
        return ''


def _eq_expr(a, b, tol=1e-6):
    import numpy as np
    a = a.item() if isinstance(a, np.generic) else a
    b = b.item() if isinstance(b, np.generic) else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return to_bool_expr(a) == to_bool_expr(b), None
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return z3.BoolVal(bool(a is b or a == b)), None
    if la[0] == 'x' or lb[0] == 'x':
        if la[0] == 'x' and lb[0] == 'x':
            fa, fb = la[1], lb[1]
            return z3.BoolVal(fa == fb or (fa != fa and fb != fb)), None
        return z3.BoolVal(False), None
    (ka, x), (kb, y) = la, lb
    if ka == kb == 'i':
        return x == y, None
    x, y = _real(ka, x), _real(kb, y)
    d = x - y
    margin = z3.Or(d > z3.RealVal('1/100') * (1 + z3.If(y >= 0, y, -y)), -d > z3.RealVal('1/100') * (1 + z3.If(y >= 0, y, -y)))
    x, y = z3.simplify(x), z3.simplify(y)
    if x.eq(y):
        return z3.BoolVal(True), None
    # the same real number up to rounding of floating point constants in the code
    lim = _frac(tol) * (1 + z3.If(y >= 0, y, -y))
    return z3.And(d <= lim, -d <= lim), margin


class Diverged(Exception):
    pass


class ConT:
    """The t of a concrete run (replay on the real code)."""
    symbolic = False

    def __init__(self, values, tol=2e-7):
        self.values = values
        self.tol = tol
        self.fails = []
        self.covers = set()
        self.obs = {}
        self.checked = 0
        self.missing = []

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def real(self, name, lo=-1e6, hi=1e6):
        d = 0.0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else float(lo if lo is not None else hi)
        return float(self._get(name, d))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        return options[0] if len(options) == 1 else options[self.int(name, 0, len(options) - 1)]

    def conc_int(self, name, lo, hi):
        return self.int(name, lo, hi)

    def assume(self, c):
        if not c:
            raise Abort()

    def check(self, label, c, margin=None):
        self.checked += 1
        if not bool(c):
            self.fails.append((label, ''))

    def eq(self, label, a, b):
        self.checked += 1
        if not same(a, b, self.tol):
            self.fails.append((label, f'got {a!r}, expected {b!r}'))

    def le(self, label, a, b):
        self.checked += 1
        try:
            ok = float(a) <= float(b) + self.tol * (1 + abs(float(b)))
        except Exception:
            ok = False
        if not ok:
            self.fails.append((label, f'{a!r} > {b!r}'))

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, v):
        self.obs[name] = v


def same(a, b, tol=1e-6):
    import numpy as np
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        fa, fb = float(a), float(b)
        if fa != fa or fb != fb:
            return fa != fa and fb != fb
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= tol * (1 + max(abs(fa), abs(fb)))
    return a is b or a == b
