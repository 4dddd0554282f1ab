"""Exact rational-function normal forms and structural sign reasoning on z3 terms.

Used to split an obligation before it is handed to the solver: an equality whose two sides are the same rational function
(denominators are non-zero on the path) needs no further reasoning, a sign obligation is reduced to sign queries on its factors.
"""
from fractions import Fraction
import z3

LIMIT = 4000


class TooBig(Exception):
    pass


def _pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            d = dict(ma)
            for k, p in mb:
                d[k] = d.get(k, 0) + p
            m = tuple(sorted(d.items()))
            r[m] = r.get(m, 0) + ca * cb
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


ONE = {(): Fraction(1)}


def _norm(p):
    """(scalar, monic frozen polynomial)"""
    lead = p[max(p)]
    return lead, frozenset((m, c / lead) for m, c in p.items())


class Ratio:
    """num / product(den)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}

    def add(self, o, k=1):
        den = dict(self.den)
        for f, p in o.den.items():
            den[f] = max(den.get(f, 0), p)
        return Ratio(_padd(self._to(den), o._to(den), k), den)

    def _to(self, den):
        n = self.num
        for f, p in den.items():
            for _ in range(p - self.den.get(f, 0)):
                n = _pmul(n, dict(f))
        return n

    def mul(self, o):
        den = dict(self.den)
        for f, p in o.den.items():
            den[f] = den.get(f, 0) + p
        return Ratio(_pmul(self.num, o.num), den)._cancel()

    def _cancel(self):
        for f in list(self.den):
            while self.den.get(f):
                s = _norm(self.num) if self.num else None
                if s and s[1] == f:
                    self.num = {(): s[0]}
                    self.den[f] -= 1
                else:
                    q = _monodiv(self.num, f)
                    if q is None:
                        break
                    self.num = q
                    self.den[f] -= 1
            if not self.den[f]:
                del self.den[f]
        return self

    def inv(self):
        num = ONE
        for f, p in self.den.items():
            for _ in range(p):
                num = _pmul(num, dict(f))
        if not self.num:
            raise TooBig()
        lead, f = _norm(self.num)
        if f == frozenset(ONE.items()):
            return Ratio({m: c / lead for m, c in num.items()}, {})
        if len(f) == 1:
            # a monomial: one factor per atom
            (m, _), = f
            den = {}
            for a, p in m:
                den[frozenset({(((a, 1),), Fraction(1))})] = p
            return Ratio({m: c / lead for m, c in num.items()}, den)._cancel()
        return Ratio({m: c / lead for m, c in num.items()}, {f: 1})._cancel()


def _monodiv(num, f):
    """num / f for a single-atom f that divides every monomial"""
    if len(f) != 1 or not num:
        return None
    (m, c), = f
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    r = {}
    for mm, cc in num.items():
        d = dict(mm)
        if not d.get(a):
            return None
        d[a] -= 1
        if not d[a]:
            del d[a]
        r[tuple(sorted(d.items()))] = cc / c
    return r


def ratio(e, memo=None, keep=None):
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = _ratio(e, memo)
    memo[i] = (e, r)
    return r


def _ratio(e, memo):
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return Ratio({(): f} if f else {})
    if z3.is_int_value(e):
        f = Fraction(e.as_long())
        return Ratio({(): f} if f else {})
    if z3.is_app(e):
        k = e.decl().kind()
        a = e.children()
        if k == z3.Z3_OP_ADD:
            r = ratio(a[0], memo)
            for x in a[1:]:
                r = r.add(ratio(x, memo))
            return r
        if k == z3.Z3_OP_SUB:
            r = ratio(a[0], memo)
            for x in a[1:]:
                r = r.add(ratio(x, memo), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return Ratio({}).add(ratio(a[0], memo), -1)
        if k == z3.Z3_OP_MUL:
            r = ratio(a[0], memo)
            for x in a[1:]:
                r = r.mul(ratio(x, memo))
            return r
        if k == z3.Z3_OP_DIV:
            return ratio(a[0], memo).mul(ratio(a[1], memo).inv())
        if k == z3.Z3_OP_POWER and z3.is_rational_value(a[1]) and a[1].denominator_as_long() == 1 and 0 < a[1].numerator_as_long() < 9:
            r = b = ratio(a[0], memo)
            for _ in range(a[1].numerator_as_long() - 1):
                r = r.mul(b)
            return r
    return Ratio({((e.get_id(), 1),): Fraction(1)})


def _shallow(e, c=Fraction(1), out=None):
    """Sum of products over opaque factors: nothing is multiplied out.  {monomial of (term id, power): coefficient}"""
    out = {} if out is None else out
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        for x in e.children():
            _shallow(x, c, out)
        return out
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        _shallow(ch[0], c, out)
        for x in ch[1:]:
            _shallow(x, -c, out)
        return out
    pows = {}

    def factors(x, s):
        nonlocal c
        k = x.decl().kind() if z3.is_app(x) else None
        if z3.is_rational_value(x):
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            if s > 0:
                c *= f
            elif f:
                c /= f
            else:
                raise TooBig()
        elif k == z3.Z3_OP_MUL:
            for y in x.children():
                factors(y, s)
        elif k == z3.Z3_OP_DIV:
            factors(x.arg(0), s)
            factors(x.arg(1), -s)
        elif k == z3.Z3_OP_UMINUS:
            c = -c
            factors(x.arg(0), s)
        else:
            pows[x.get_id()] = (x, pows.get(x.get_id(), (x, 0))[1] + s)
    factors(e, 1)
    m = tuple(sorted((i, p) for i, (_, p) in pows.items() if p))
    for i, (x, _) in pows.items():
        ATOMS[i] = x
    if c:
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


ATOMS = {}


def _same_shallow(x, y):
    ATOMS.clear()
    try:
        d = _shallow(z3.simplify(x))
        _shallow(z3.simplify(y), Fraction(-1), d)
    except TooBig:
        return False
    for _ in range(8):
        if not d:
            return True
        dens = {i for m in d for i, p in m if p < 0 and ATOMS[i].decl().kind() == z3.Z3_OP_ADD}
        done = False
        for i in dens:
            part = {m: c for m, c in d.items() if (i, -1) in m}
            num = {tuple(f for f in m if f != (i, -1)): c for m, c in part.items()}
            try:
                den = _shallow(ATOMS[i])
            except TooBig:
                continue
            if not den or len(den) != len(num) or set(den) != set(num):
                continue
            r = {num[m] / den[m] for m in den}
            if len(r) != 1:
                continue
            for m in part:
                del d[m]
            v = d.get((), 0) + r.pop()
            d.pop((), None)
            if v:
                d[()] = v
            done = True
            break
        if not done:
            return False
    return not d


def same_ratio(x, y):
    """True when x and y are the same rational function"""
    if _same_shallow(x, y):
        return True
    try:
        memo = {}
        return not ratio(x, memo).add(ratio(y, memo), -1).num
    except TooBig:
        return False


def is_leaf(e):
    return not (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER))


def is_linear(e):
    if not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(not z3.is_rational_value(c) for c in e.children()) <= 1 and all(is_linear(c) for c in e.children())
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        return False
    if k == z3.Z3_OP_UNINTERPRETED:
        return True
    return all(is_linear(c) for c in e.children())


def _has_div(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_DIV:
            return True
        return any(_has_div(c, seen) for c in e.children())
    return False


def _atoms(e, memo, out):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_leaf(x):
            out[x.get_id()] = x
        else:
            stack.extend(x.children())


def _poly_expr(p, atoms):
    terms = []
    for m, c in p.items():
        t = [z3.RealVal(str(c))]
        for a, k in m:
            t += [atoms[a]] * k
        terms.append(z3.Product(t) if len(t) > 1 else t[0])
    return z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)


def zero(e, signs):
    """A formula equivalent to e == 0 (denominators are non-zero), as linear as possible."""
    if z3.is_rational_value(e):
        return z3.BoolVal(e.numerator_as_long() == 0)
    k = e.decl().kind() if z3.is_app(e) else None
    a = e.children()
    if k == z3.Z3_OP_MUL:
        return z3.Or([zero(x, signs) for x in a])
    if k == z3.Z3_OP_DIV:
        return zero(a[0], signs)
    if k == z3.Z3_OP_POWER:
        return zero(a[0], signs)
    if k == z3.Z3_OP_ADD:
        if all(signs.nonneg(x) for x in a):
            return z3.And([zero(x, signs) for x in a])
        if _has_div(e):
            try:
                r = ratio(e)
            except TooBig:
                return e == 0
            if not r.num:
                return z3.BoolVal(True)
            if len(r.num) > 60:
                return e == 0
            atoms = {}
            _atoms(e, None, atoms)
            common = None
            for m in r.num:
                d = dict(m)
                common = d if common is None else {x: min(n, d[x]) for x, n in common.items() if x in d}
            num = {}
            for m, c in r.num.items():
                d = dict(m)
                num[tuple(sorted((x, n - common.get(x, 0)) for x, n in d.items() if n - common.get(x, 0)))] = c
            return z3.Or([atoms[x] == 0 for x in common] + [_poly_expr(num, atoms) == 0])
    return e == 0


def tidy(f, signs):
    """Rewrites the equalities of rational functions in a condition."""
    if not _has_div(f):
        return f
    k = f.decl().kind()
    a = f.children()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return (z3.And if k == z3.Z3_OP_AND else z3.Or)([tidy(x, signs) for x in a])
    if k == z3.Z3_OP_NOT:
        return z3.Not(tidy(a[0], signs))
    if k == z3.Z3_OP_EQ and a[0].sort() == z3.RealSort():
        d = a[0] if z3.is_rational_value(a[1]) and a[1].numerator_as_long() == 0 else a[1] if z3.is_rational_value(a[0]) and a[0].numerator_as_long() == 0 else z3.simplify(a[0] - a[1])
        return zero(d, signs)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and a[0].sort() == z3.RealSort():
        big, small = (a[1], a[0]) if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) else (a[0], a[1])
        if z3.is_rational_value(small) and small.numerator_as_long() == 0 and signs.nonneg(big):
            return z3.BoolVal(True) if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else z3.Not(zero(big, signs))
        if z3.is_rational_value(big) and big.numerator_as_long() == 0 and signs.nonneg(small):
            return z3.BoolVal(False) if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else zero(small, signs)
    return f


class Signs:
    """Structural sign proofs; leaves are decided by the solver (ask(e): is e implied?)."""

    def __init__(self, ask):
        self.ask, self.memo = ask, {}

    def nonneg(self, e, depth=0):
        key = ('n', e.get_id())
        if key not in self.memo:
            self.memo[key] = (e, self._nonneg(e, depth))
        return self.memo[key][1]

    def pos(self, e, depth=0):
        key = ('p', e.get_id())
        if key not in self.memo:
            self.memo[key] = (e, self._pos(e, depth))
        return self.memo[key][1]

    def _leaf(self, e, op):
        return self.ask(e >= 0 if op == 'n' else e > 0)

    def _factors(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            return [f for c in e.children() for f in self._factors(c)]
        return [e]

    def _nonneg(self, e, depth):
        if z3.is_rational_value(e):
            return e.numerator_as_long() >= 0
        if depth > 60:
            return False
        k = e.decl().kind() if z3.is_app(e) else None
        a = e.children()
        if k == z3.Z3_OP_MUL:
            fs = self._factors(e)
            odd = {}
            for f in fs:
                odd[f.get_id()] = None if odd.get(f.get_id()) is not None else f
            neg = [f for f in odd.values() if f is not None and z3.is_rational_value(f) and f.numerator_as_long() < 0]
            if not neg and all(self.nonneg(f, depth + 1) for f in odd.values() if f is not None):
                return True
        elif k == z3.Z3_OP_DIV:
            if self.nonneg(a[0], depth + 1) and self.nonneg(a[1], depth + 1):
                return True
        elif k == z3.Z3_OP_ADD:
            if not any(z3.is_rational_value(x) and x.numerator_as_long() < 0 for x in a) and all(self.nonneg(x, depth + 1) for x in a):
                return True
        elif k == z3.Z3_OP_ITE:
            if self.nonneg(a[1], depth + 1) and self.nonneg(a[2], depth + 1):
                return True
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(a[1]) and a[1].denominator_as_long() == 1:
            if a[1].numerator_as_long() % 2 == 0 or self.nonneg(a[0], depth + 1):
                return True
        return self._leaf(e, 'n')

    def _pos(self, e, depth):
        if z3.is_rational_value(e):
            return e.numerator_as_long() > 0
        if depth > 60:
            return False
        k = e.decl().kind() if z3.is_app(e) else None
        a = e.children()
        if k == z3.Z3_OP_MUL:
            if all(self.pos(f, depth + 1) for f in self._factors(e)):
                return True
        elif k == z3.Z3_OP_DIV:
            if self.pos(a[0], depth + 1) and self.pos(a[1], depth + 1):
                return True
        elif k == z3.Z3_OP_ADD:
            if all(self.nonneg(x, depth + 1) for x in a) and any(self.pos(x, depth + 1) for x in a):
                return True
        return self._leaf(e, 'p')
