"""Path-exploring symbolic executor for ordinary Python code.

The code under test runs for real in CPython.  Its inputs are proxy objects
(SymReal / SymInt / SymBool) which carry z3 terms.  Every data dependent branch
ends in ``SymBool.__bool__``: there the solver decides which outcomes are
feasible under the path condition, and the explorer re-executes the harness once
for each feasible combination (depth first).  ``Ctx.check`` asks the solver for
a value of the inputs which follows this path and falsifies the assertion: unsat
means that the assertion holds for every input which follows the path.
"""
import itertools
import json
import math
import re
import time
from fractions import Fraction

import numpy as np
import z3

from . import num

# ----------------------------------------------------------------- globals ---
CUR = None  # the context of the path in execution (None => no symbolic run)

MARK_L, MARK_R = '\ue000', '\ue001'


class PathAbort(BaseException):
    """Ends the current path (BaseException: code under test must not catch it)"""


class Infeasible(PathAbort):
    pass


class Failed(PathAbort):
    """The path ended because a check failed on it"""


class Unsupported(PathAbort):
    """Something the executor cannot express"""


class Budget(PathAbort):
    """path or time budget exhausted"""


_FRAC_CACHE = {}


def realval(x):
    """exact z3 numeral of a python number (floats by their exact binary value)"""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    x = float(x)
    r = _FRAC_CACHE.get(x)
    if r is None:
        r = _FRAC_CACHE[x] = z3.RealVal(rational(x))
    return r


def rational(x):
    """the simplest rational within 2e-13 of a float: constants which were computed in two ways become one number"""
    if x == 0 or x == int(x) and abs(x) < 2 ** 53:
        return Fraction(int(x))
    ten = Fraction(10) ** int('{:e}'.format(abs(x)).split('e')[1])
    f = Fraction(repr(abs(x))) / ten
    lo, hi = f * (1 - Fraction(1, 5 * 10 ** 12)), f * (1 + Fraction(1, 5 * 10 ** 12))
    # continued fractions (Stern-Brocot)
    a, b, c, d = lo.numerator, lo.denominator, hi.numerator, hi.denominator
    q = []
    while True:
        n = a // b
        if n * b == a or (n + 1) * d <= c:
            q.append(n if n * b == a else n + 1)
            break
        q.append(n)
        a, b, c, d = d, c - n * d, b, a - n * b
    r = Fraction(q[-1])
    for n in reversed(q[:-1]):
        r = n + 1 / r
    return r * ten if x > 0 else -r * ten


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not isinstance(x, SymBase)


def is_sym(x):
    return isinstance(x, SymBase)


class SymBase(object):
    __slots__ = ()
    # numpy must treat the proxies as opaque scalars
    __array_priority__ = 1000.


def _const(e):
    """python Fraction/int value of a z3 numeral, or None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


# ----------------------------------------------------------------- SymBool ---
class SymBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def _lift(self, other):
        if isinstance(other, SymBool):
            return other.e
        if isinstance(other, (bool, np.bool_)):
            return z3.BoolVal(bool(other))
        return None

    def __and__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else SymBool(z3.And(self.e, o))

    __rand__ = __and__

    def __or__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else SymBool(z3.Or(self.e, o))

    __ror__ = __or__

    def __xor__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else SymBool(z3.Xor(self.e, o))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, other):
        o = self._lift(other)
        if o is None:
            if is_num(other) or isinstance(other, (SymInt, SymReal)):
                return self._i() == other
            return False
        return SymBool(self.e == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))._i()
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return 'SymBool({})'.format(self.e)


# -------------------------------------------------------- numeric proxies ----
def _each(arr, fn):
    """array (op) proxy, element by element"""
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        out[i] = fn(arr[i])
    return out if out.shape else out[()]


class SymNum(SymBase):
    __slots__ = ()

    # ---- helpers
    @staticmethod
    def _split(o):
        """-> (kind, value): kind 'i'/'r' symbolic or finite number as z3 term, 'x' for inf/nan, None otherwise"""
        if isinstance(o, SymInt):
            return 'i', o.e
        if isinstance(o, SymReal):
            return 'r', o.e
        if isinstance(o, SymBool):
            return 'i', o._i().e
        if isinstance(o, (bool, np.bool_, int, np.integer)):
            return 'i', z3.IntVal(int(o))
        if isinstance(o, (float, np.floating)):
            f = float(o)
            if math.isnan(f) or math.isinf(f):
                return 'x', f
            return 'r', realval(f)
        if isinstance(o, Fraction):
            return 'r', realval(o)
        return None, None

    def _npy(self, o=None):
        return getattr(self, 'npy', False) or getattr(o, 'npy', False) or isinstance(o, np.generic)

    def _kind(self):
        return 'i' if isinstance(self, SymInt) else 'r'

    def _bin(self, o, fn, rev=False):
        if isinstance(o, np.ndarray):
            return _each(o, lambda v: self._bin(v, fn, rev)) if rev else NotImplemented
        k, b = self._split(o)
        if k is None:
            return NotImplemented
        a = self.e
        mine = self._kind()
        if k == 'x':
            # finite symbolic against inf / nan: float semantics
            return _finite_vs_special(self, b, fn, rev)
        if mine == 'i' and k == 'i':
            mk = SymInt
        else:
            if mine == 'i':
                a = toreal(a)
            if k == 'i':
                b = toreal(b)
            mk = SymReal
        if rev:
            a, b = b, a
        if fn == '+':
            r = a + b
        elif fn == '-':
            r = a - b
        elif fn == '*':
            r = a * b
        else:
            raise AssertionError(fn)
        r = z3.simplify(r) if mk is SymInt else _simp(r)
        if mk is SymReal:
            return SymReal(r, self._npy(o))
        return SymInt(r)

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return self._bin(o, '*')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return self._bin(o, '*', True)

    def __neg__(self):
        return type(self)._mk(_simp(-self.e), self)

    def __pos__(self):
        return self

    def __abs__(self):
        zero = z3.IntVal(0) if isinstance(self, SymInt) else z3.RealVal(0)
        return type(self)._mk(_simp(z3.If(self.e >= zero, self.e, -self.e)), self)

    fabs = __abs__

    def _div(self, o, rev):
        if isinstance(o, np.ndarray):
            return _each(o, lambda v: self._div(v, rev)) if rev else NotImplemented
        k, b = self._split(o)
        if k is None:
            return NotImplemented
        if k == 'x':
            if math.isnan(b):
                return float('nan')
            if not rev:
                return SymReal(z3.RealVal(0), self._npy(o))
            # inf / self
            num, den = b, self
            if den == 0:
                if self._npy(o):
                    return np.float64(num)
                raise ZeroDivisionError('division by zero')
            return num if den > 0 else -num
        a = toreal(self.e) if isinstance(self, SymInt) else self.e
        if k == 'i':
            b = toreal(b)
        if rev:
            a, b = b, a
        cb = _const(b)
        npy = self._npy(o)
        if cb is None:
            iszero = CUR.decide(b == 0)
        else:
            iszero = cb == 0
        if iszero:
            if not npy:
                raise ZeroDivisionError('division by zero')
            ca = _const(a)
            if ca is None:
                if CUR.decide(a == 0):
                    return np.float64('nan')
                return np.float64('inf') if CUR.decide(a > 0) else np.float64('-inf')
            return np.float64('nan') if ca == 0 else np.float64('inf' if ca > 0 else '-inf')
        if cb is not None:
            return SymReal(_simp(a * z3.RealVal(1 / Fraction(cb))), npy)
        return SymReal(_quot(a, b), npy)

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __floordiv__(self, o):
        k, b = self._split(o)
        if isinstance(self, SymInt) and k == 'i':
            if CUR.decide(b == 0):
                raise ZeroDivisionError
            # python floors, z3 rounds to keep the remainder non-negative
            return SymInt(_simp(z3.If(b > 0, self.e / b, (-self.e) / (-b))))
        q = self._div(o, False)
        if not isinstance(q, SymReal):
            return q
        return SymReal(toreal(z3.ToInt(q.e)), self._npy(o))

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda v: sym_pow(v, self))
        return sym_pow(o, self)

    # ---- comparisons
    def _cmp(self, o, fn):
        if isinstance(o, np.ndarray):
            # as numpy: an array of booleans (the path forks on each)
            return np.array([bool(self._cmp(v, fn)) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
        k, b = self._split(o)
        if k is None:
            if fn == '==':
                return False
            if fn == '!=':
                return True
            return NotImplemented
        if k == 'x':
            if math.isnan(b):
                return fn == '!='
            return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[fn]
        a = self.e
        mine = self._kind()
        if mine != k:
            if mine == 'i':
                a = toreal(a)
            else:
                b = toreal(b)
        if fn == '<':
            r = a < b
        elif fn == '<=':
            r = a <= b
        elif fn == '>':
            r = a > b
        elif fn == '>=':
            r = a >= b
        elif fn == '==':
            r = a == b
        else:
            r = a != b
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---- leaving the symbolic world
    def __str__(self):
        c = _const(self.e)
        if c is not None:
            return str(c) if isinstance(self, SymInt) else repr(float(c))
        return (spelled(self, '') if CUR.spell else None) or CUR.mark(self)

    __repr__ = __str__

    def __format__(self, spec):
        c = _const(self.e)
        if c is not None:
            return format(int(c) if isinstance(self, SymInt) else float(c), spec)
        return (spelled(self, spec) if CUR.spell else None) or CUR.mark(self, spec)

    # ---- numpy methods looked up on object arrays' elements
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_fun('log10', self, pos=True)

    def sqrt(self):
        return sym_pow(self, 0.5)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def _simp(e):
    return z3.simplify(e)


def toreal(e):
    """ToReal pushed to the leaves (a small normal form, so that syntactic equality is found more often)"""
    return z3.simplify(z3.ToReal(e))


def normal(e):
    """sum-of-monomials normal form"""
    return z3.simplify(e, som=True, hoist_mul=False, flat=True, arith_lhs=True)


def monomials(e):
    """{ids of the factors: coefficient} of a normal form"""
    out = {}
    for x in (e.children() if z3.is_add(e) else [e]):
        c = _const(x)
        if c is not None:
            key, coef = (), Fraction(c)
        elif z3.is_mul(x):
            ch = x.children()
            c = _const(ch[0])
            coef = Fraction(1 if c is None else c)
            key = tuple(sorted(f.get_id() for f in (ch if c is None else ch[1:])))
        else:
            coef, key = Fraction(1), (x.get_id(),)
        out[key] = out.get(key, 0) + coef
    return out


def rounding_only(d, a, b):
    """a and b are the same polynomial but for the last digits of their constants (d is their difference)"""
    a, b = monomials(a), monomials(b)
    return all(abs(c) * 10 ** 11 <= max(abs(a.get(k, 0)), abs(b.get(k, 0))) for k, c in monomials(d).items())


def fingerprint(e):
    """equal for polynomials which differ in the last digits of their constants only; None when terms may cancel"""
    m = monomials(e)
    if len(set(c > 0 for c in m.values())) != 1:
        return None
    return tuple(sorted((k, '{:.10e}'.format(float(c))) for k, c in m.items()))


def _finite_vs_special(s, b, fn, rev):
    if math.isnan(b):
        return float('nan')
    if fn == '+':
        return b
    if fn == '-':
        return b if rev else -b
    # multiplication by an infinity
    if s == 0:
        return float('nan')
    return b if s > 0 else -b


class _Float64(object):
    """what a proxy reports as its dtype: float64, whose conversion keeps proxies (ndarray.mean uses it)"""
    name, kind, char, itemsize = 'float64', 'f', 'd', 8

    @staticmethod
    def type(x):
        return x if isinstance(x, SymBase) else np.float64(x)

    def __eq__(self, o):
        return np.dtype('float64') == o

    def __hash__(self):
        return hash(np.dtype('float64'))

    def __repr__(self):
        return "dtype('float64')"

    __str__ = lambda self: 'float64'


_FLOAT = _Float64()


class SymReal(SymNum):
    __slots__ = ('e', 'npy')

    def __init__(self, e, npy=False):
        self.e = e
        self.npy = npy

    @staticmethod
    def _mk(e, like):
        return SymReal(e, like.npy)

    def __hash__(self):
        c = _const(self.e)
        if c is not None:
            return hash(float(c))
        return hash(CUR.pin_real(self))

    def __float__(self):
        c = _const(self.e)
        if c is not None:
            return float(c)
        return CUR.pin_real(self)

    def __int__(self):
        # truncation towards zero
        e = self.e
        return CUR.pin_int(SymInt(_simp(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))))

    def __round__(self, n=None):
        if n is None:
            f = z3.ToInt(self.e + z3.RealVal(Fraction(1, 2)))
            fl = toreal(f)
            # ties to even
            tie = (fl - z3.RealVal(Fraction(1, 2)) == self.e)
            return SymInt(_simp(z3.If(z3.And(tie, f % 2 == 1), f - 1, f)))
        s = 10 ** n
        if CUR.spell:
            r = CUR.new_int()        # half-way cases: either way
            for t in (self.e * s - toreal(r) <= realval(Fraction(1, 2)), toreal(r) - self.e * s <= realval(Fraction(1, 2))):
                CUR.add(t, axiom=True)
            v = SymReal(_simp(toreal(r) / realval(s)), self.npy)
            CUR.whole[v.e.get_id()] = (r, n, v)
            return v
        r = (self * s).__round__()
        return SymReal(_simp(toreal(r.e) / realval(s)), self.npy)

    @property
    def dtype(self):
        return _FLOAT

    @property
    def _hasna(self):
        return True  # pandas: does not fit into a float array

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


class SymInt(SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _mk(e, like):
        return SymInt(e)

    def __hash__(self):
        return hash(int(self))

    def __int__(self):
        c = _const(self.e)
        return c if c is not None else CUR.pin_int(self)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __round__(self, n=None):
        return self


def rounded(v, decimals=0):
    """as numpy rounds: a float stays a float"""
    if not is_sym(v):
        return np.round(v, decimals)
    if isinstance(v, SymInt):
        return v
    s = 10 ** decimals
    r = (v * s).__round__()
    return SymReal(_simp(toreal(r.e) / realval(s)), v.npy)


# ------------------------------------------------------ numbers as text ---
DIGIT = 0xE100


def _digits(n, point):
    """decimal digits of the non-negative integer term n, with a point before the last ones. The length of the number, and how many zeros
    it ends with, are decided by forking; every other digit is a character which stands for a term."""
    size = 1
    while not CUR.decide(n < 10 ** size):
        size += 1
        if size > 18:
            return None
    out = []
    trailing = True
    rest = n
    for k in range(max(size, point + 1)):
        if k == point and k:
            out.append('.')
        if k >= size:
            out.append('0')
            continue
        dig = rest if k == size - 1 else CUR.new_int()
        if k < size - 1:
            more = CUR.new_int()
            for t in (rest == 10 * more + dig, dig >= 0, dig <= 9):
                CUR.add(t, axiom=True)
            rest = more
        if trailing and CUR.decide(dig == 0):
            out.append('0')
            continue
        trailing = False
        CUR.spelt.append(dig)
        out.append(chr(DIGIT + len(CUR.spelt) - 1))
    return ''.join(reversed(out))


def spelled(s, spec):
    """the text of a number, as str or with a format of a fixed number of decimals, or None"""
    e = s.e
    if isinstance(s, SymInt):
        neg = CUR.decide(e < 0)
        text = _digits(-e if neg else e, 0) if spec in ('', 'd') else None
        return text and '-' * neg + text
    neg = CUR.decide(e < 0)
    a = -e if neg else e
    if spec == '' and e.get_id() in CUR.whole:
        r, d, _ = CUR.whole[e.get_id()]
        if d <= 0:
            return None
        n = -r if neg else r
        while d > 1:
            dig, more = CUR.new_int(), CUR.new_int()
            for t in (n == 10 * more + dig, dig >= 0, dig <= 9):
                CUR.add(t, axiom=True)
            if not CUR.decide(dig == 0):
                break
            n, d = more, d - 1
        text = _digits(n, d)
        return text and '-' * neg + text
    if spec == '':
        for d in range(5):
            if CUR.decide(z3.IsInt(a * 10 ** d)):
                n = z3.ToInt(a * 10 ** d)
                text = _digits(n, d) if d else (_digits(n, 0) or '') + '.0'
                return '-' * neg + text if len(text) > 2 else None
        return None
    m = re.match(r'^\.?(\d*)([fFeE])$', spec)
    if not m:
        return None
    d = int(m.group(1) or 6)
    if m.group(2) in 'fF':
        text = _digits(CUR.whole[round(SymReal(_simp(a)), d).e.get_id()][0], d)
        return text and '-' * neg + text
    if CUR.decide(a == 0):
        return format(0., spec)
    x = 0
    half = Fraction(1, 2 * 10 ** d)
    while not CUR.decide(a < realval((10 - half) * Fraction(10) ** x)):
        x += 1
        if x > 40:
            return None
    while x <= 0 and CUR.decide(a < realval((10 - half) * Fraction(10) ** (x - 1))):
        x -= 1
        if x < -60:
            return None
    text = _digits(CUR.whole[round(SymReal(_simp(a * realval(Fraction(10) ** -x))), d).e.get_id()][0], d)
    return text and '{}{}{}{:+03d}'.format('-' * neg, text, m.group(2), x)


def unspelled(text):
    """the number which a text with such digits means"""
    text = text.strip()
    if not any(ord(c) >= DIGIT and ord(c) < DIGIT + len(CUR.spelt) for c in text):
        return float(text)
    mant, _, ex = text.lower().partition('e')
    neg = mant.startswith('-')
    whole, _, frac = mant.lstrip('+-').partition('.')
    n = z3.IntVal(0)
    for c in whole + frac:
        n = n * 10 + (CUR.spelt[ord(c) - DIGIT] if ord(c) >= DIGIT else int(c))
    v = SymReal(_simp(toreal(z3.simplify(n)) * realval(Fraction(10) ** (int(ex or 0) - len(frac)))))
    return -v if neg else v


# ------------------------------------------------ transcendental functions ---
def sym_fun(name, x, pos=False, axioms=None):
    """uninterpreted real function of one argument: one fresh variable per normalised argument"""
    if not is_sym(x):
        return getattr(np, name)(x)
    npy = getattr(x, 'npy', False)
    e = toreal(x.e) if isinstance(x, SymInt) else x.e
    e = normal(e)
    return SymReal(CUR.ufun(name, (e,), axioms), npy)


def sym_exp(x):
    if not is_sym(x):
        return np.exp(x)

    def ax(v, args, prev):
        yield v > 0
        yield z3.Implies(args[0] == 0, v == 1)
        yield z3.Implies(args[0] > 0, v > 1)
        yield z3.Implies(args[0] < 0, v < 1)
        for (a2,), v2 in prev:
            yield z3.And(z3.Implies(args[0] < a2, v < v2), z3.Implies(args[0] > a2, v > v2),
                         z3.Implies(args[0] == a2, v == v2))
    c = _const(x.e)
    if c is not None and abs(float(c)) < 600:
        return SymReal(realval(math.exp(float(c))), getattr(x, 'npy', False))
    return sym_fun('exp', x, axioms=ax)


def sym_log(x):
    if not is_sym(x):
        return np.log(x)
    if x <= 0:
        if not getattr(x, 'npy', False):
            raise ValueError('math domain error')
        return np.float64('-inf') if x == 0 else np.float64('nan')

    def ax(v, args, prev):
        yield z3.Implies(args[0] == 1, v == 0)
        yield z3.Implies(args[0] > 1, v > 0)
        yield z3.Implies(args[0] < 1, v < 0)
        for (a2,), v2 in prev:
            yield z3.And(z3.Implies(args[0] < a2, v < v2), z3.Implies(args[0] > a2, v > v2),
                         z3.Implies(args[0] == a2, v == v2))
    c = _const(x.e)
    if c is not None:
        return SymReal(realval(math.log(c)), getattr(x, 'npy', False))
    return sym_fun('log', x, axioms=ax)


def sym_pow(b, x):
    """b ** x"""
    if not is_sym(b) and not is_sym(x) and is_num(b) and is_num(x):
        return b ** x
    if not is_sym(b) and not is_num(b):
        return NotImplemented
    if not is_sym(x) and not is_num(x):
        return NotImplemented
    npy = getattr(b, 'npy', False) or getattr(x, 'npy', False) or isinstance(b, np.generic) or isinstance(x, np.generic)
    cx = _const(x.e) if is_sym(x) else rational(float(x)) if not isinstance(x, (int, np.integer)) else int(x)
    if cx is not None and Fraction(cx).denominator == 1 and abs(cx) <= 12:
        n = int(cx)
        if n == 0:
            return SymReal(z3.RealVal(1), npy) if not (isinstance(b, SymInt) and isinstance(x, (int, SymInt))) else 1
        r = b
        for _ in range(abs(n) - 1):
            r = r * b
        return r if n > 0 else 1. / r
    if is_num(b):
        b_ = SymReal(realval(b), isinstance(b, np.generic))
        if abs(float(b) - math.e) < 1e-14:
            return sym_exp(x if isinstance(x, SymReal) else SymReal(toreal(x.e)))
    else:
        b_ = b
    be = toreal(b_.e) if isinstance(b_, SymInt) else b_.e
    if cx is not None and Fraction(cx) == Fraction(1, 2):
        neg = SymReal(be) < 0
        if neg:
            if npy:
                return np.float64('nan')
            raise Unsupported('complex result')

        c = _const(be)
        if c is not None:
            return SymReal(realval(float(c) ** 0.5), npy)

        def ax(v, args, prev):
            yield v >= 0
            yield v * v == args[0]
        return SymReal(CUR.ufun('sqrt', (normal(be),), ax), npy)
    if cx is not None and Fraction(cx).denominator == 2 and abs(cx) <= 12:
        m = int(2 * abs(Fraction(cx)))
        r = sym_pow(SymReal(be, npy), 0.5)
        if is_sym(r):
            for _ in range(m // 2):
                r = r * SymReal(be, npy)
            return r if cx > 0 else 1. / r
    if SymReal(be) <= 0:
        if SymReal(be) == 0:
            if x == 0:
                return SymReal(z3.RealVal(1), npy)
            if x > 0:
                return SymReal(z3.RealVal(0), npy)
            if npy:
                return np.float64('inf')
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
        if npy:
            return np.float64('nan')
        raise Unsupported('negative base')
    xe = realval(x) if is_num(x) else (toreal(x.e) if isinstance(x, SymInt) else x.e)
    c, cx = _const(be), _const(xe)
    if c is not None and cx is not None:
        try:
            v = float(c) ** float(cx)
        except OverflowError:
            v = 0.
        if 0. < v < float('inf'):
            return SymReal(realval(v), npy)

    def ax(v, args, prev):
        yield v > 0
        yield z3.Implies(args[1] == 0, v == 1)
        yield z3.Implies(args[1] == 1, v == args[0])
        yield z3.Implies(args[0] == 1, v == 1)
        for (b2, x2), v2 in prev:
            yield z3.Implies(z3.And(args[0] == b2, args[1] == x2), v == v2)
    return SymReal(CUR.ufun('pow', (normal(be), normal(xe)), ax), npy)


def _quot(a, b):
    """a / b for b known to be non-zero on this path: a * inv(b), inv one fresh variable per denominator"""
    nb = normal(b)
    # factor a numeral out of the denominator, so that x/(2*y) and (x/y)/2 share the inverse of y
    coef = Fraction(1)
    if z3.is_mul(nb):
        ch = nb.children()
        c = _const(ch[0])
        if c is not None and c != 0:
            coef = Fraction(c)
            rest = ch[1:]
            nb = rest[0] if len(rest) == 1 else z3.simplify(z3.Product(*rest)) if hasattr(z3, 'Product') else nb
    elif z3.is_add(nb):
        # so do sums: their first coefficient becomes one
        m = monomials(nb)
        c = m[min(k for k in m if k)] if any(m) else None
        if c is not None and c != 1 and c != 0:
            coef = c
            nb = normal(nb * z3.RealVal(1 / c))

    if z3.is_mul(nb):
        # product of factors: product of the inverses
        inv = None
        for f in nb.children():
            i = _inv(f)
            inv = i if inv is None else inv * i
    else:
        inv = _inv(nb)
    return _simp(a * inv * z3.RealVal(1 / coef))


def _inv(f):
    f = z3.simplify(f)
    if f.num_args() == 2 and z3.is_app_of(f, z3.Z3_OP_POWER):
        base, ex = f.children()
        n = _const(ex)
        if n is not None and Fraction(n).denominator == 1 and n > 0:
            i = _inv(base)
            r = i
            for _ in range(int(n) - 1):
                r = r * i
            return r
    inverse_of = CUR.inv_of.get(f.get_id())
    if inverse_of is not None:
        return inverse_of

    def ax(v, args, prev):
        yield v * args[0] == 1
        yield z3.And(z3.Implies(args[0] > 0, v > 0), z3.Implies(args[0] < 0, v < 0))
    v = CUR.ufun('inv', (f,), ax)
    CUR.inv_of[v.get_id()] = f
    CUR.keep.append(v)
    return v


# ---------------------------------------------------------- min / max / if ---
def ite(c, a, b):
    """merged conditional"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ka, ea = SymNum._split(a)
    kb, eb = SymNum._split(b)
    if ka is None or kb is None or 'x' in (ka, kb):
        return a if bool(c) else b
    if ka == 'i' and kb == 'i' and not isinstance(a, float):
        return SymInt(_simp(z3.If(c.e, ea, eb)))
    if ka == 'i':
        ea = toreal(ea)
    if kb == 'i':
        eb = toreal(eb)
    npy = getattr(a, 'npy', False) or getattr(b, 'npy', False)
    return SymReal(_simp(z3.If(c.e, ea, eb)), npy)


def smax(*args):
    it = iter(args)
    r = next(it)
    for a in it:
        r = ite(a > r, a, r)
    return r


def smin(*args):
    it = iter(args)
    r = next(it)
    for a in it:
        r = ite(a < r, a, r)
    return r


# ------------------------------------------------------------------- stats ---
class Stats(object):
    def __init__(self):
        self.paths = self.infeasible = self.failed_paths = 0
        self.queries = self.solver_s = 0
        self.q_sat = self.q_unsat = self.q_unknown = 0
        self.decisions = 0
        self.by_bounds = 0
        self.checks = {}
        self.reached = {}
        self.unsupported = []
        self.pins = 0
        self.budget_hit = False
        self.unknown_checks = []
        self.tolerance_equal = {}
        self.syntactic = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(d['solver_s'], 3)
        return d


_COUNTER = itertools.count()


# --------------------------------------------------------------------- Ctx ---
class Ctx(object):
    """context of one symbolic path"""
    symbolic = True

    def __init__(self, engine, prefix, start=None):
        self.engine = engine
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.stats = engine.stats
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.query_timeout_ms)
        self.pc = []
        self.inputs = []  # (name, kind, z3 var)
        self.names = set()
        self.ufuns = {}
        self.ufun_list = {}
        self.model = None
        self.marks = []
        self.spell = False
        self.spelt = []
        self.whole = {}
        self.inv_of = {}
        self.keep = []  # z3 terms whose ids are used as keys must stay alive
        self.known = {}
        self.fresh = itertools.count()
        self.notes = {}
        self.outcome = None
        self.bounds = num.Bounds(self)
        self.wit = None          # num.Numeric: an assignment known to satisfy the path, or None
        self.wit_vals = {}       # name -> value of it
        self.heavy = False       # whether there are real inputs (bounds and witnesses only pay then)
        self.ranges = []
        self.start = start
        self.user_pc = []
        self.var_sets = {}
        self.tried = None        # the last model tried as a witness

    # ---- inputs
    def _var(self, name, kind, sort, lo=None, hi=None):
        assert name not in self.names, name
        self.names.add(name)
        v = z3.Const(name, sort)
        self.inputs.append((name, kind, v))
        self.ranges.append((lo, hi))
        if self.heavy:
            if self.wit is not None:
                self._wit_input(name, kind, v, lo, hi)
        elif kind == 'real':
            self.heavy = True
            if self.start is not None:
                self.wit = num.Numeric(self, {})
                for (nm, k, u), (a, b) in zip(self.inputs, self.ranges):
                    self._wit_input(nm, k, u, a, b)
            for e in self.user_pc:
                self.bounds.fact(z3.simplify(e))
                if self.wit is not None and self.wit.truth(e) is not True:
                    self.wit = None
        return v

    # ---- witness
    def _wit_input(self, name, kind, v, lo, hi):
        x = self.start.get(name)
        if x is None:
            k = len(self.wit_vals) + 1
            if kind == 'bool':
                x = bool(k % 2)
            elif kind == 'int':
                x = lo + (k * 7) % (hi - lo + 1) if hi - lo > 40 else lo
            else:
                f = Fraction(13 + (k * 619) % 977, 1009)
                a, b = (None if c is None else Fraction(realval(c).as_fraction()) for c in (lo, hi))
                x = f if a is None and b is None else a + f if b is None else b - f if a is None else a + (b - a) * f
                x = x.limit_denominator(10**6) if x.denominator > 10**6 and (a is None or abs(x) > 1) else x
                if a is not None and b is not None and not a <= x <= b:
                    x = a + (b - a) * f
        if kind == 'bool':
            x = bool(x)
        else:
            x = Fraction(x)
        self.wit_vals[name] = x
        self.wit.values[v.get_id()] = x
        self.keep.append(v)

    def _set_witness(self, vals):
        """vals: as inputs_of; kept if it (numerically clearly) satisfies the path"""
        w = num.Numeric(self, {})
        d = {}
        for name, kind, v in self.inputs:
            x = vals[name]
            x = bool(x) if kind == 'bool' else Fraction(x)
            d[name] = x
            w.values[v.get_id()] = x
        for e in self.user_pc:
            if w.truth(e) is not True:
                self.wit = None
                return False
        self.wit, self.wit_vals = w, d
        self.start = dict(d)
        return True

    def wit_inputs(self):
        out = {}
        for name, kind, v in self.inputs:
            x = self.wit_vals[name]
            out[name] = x if kind == 'bool' else int(x) if kind == 'int' else str(x)
        return out

    def any_inputs(self):
        """inputs of some execution along this path, or None"""
        if self.wit is not None:
            return self.wit_inputs()
        m = self._ensure_model()
        return None if m is None else self.inputs_of(m)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, npy=False):
        v = self._var(name, 'real', z3.RealSort(), lo, hi)
        if lo is not None:
            self.add(v > realval(lo) if lo_open else v >= realval(lo))
        if hi is not None:
            self.add(v < realval(hi) if hi_open else v <= realval(hi))
        return SymReal(v, npy)

    def int(self, name, lo, hi):
        v = self._var(name, 'int', z3.IntSort(), lo, hi)
        self.add(v >= lo)
        self.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        return SymBool(self._var(name, 'bool', z3.BoolSort()))

    def flag(self, name):
        """boolean input, decided at once (the path forks on it)"""
        return bool(self.bool(name))

    def choice(self, name, options):
        """one of the options, as a symbolic index which is decided at once"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    # ---- constraints
    def add(self, e, model_ok=False, axiom=False):
        if z3.is_true(e):
            return
        self.pc.append(e)
        if not axiom:
            self.user_pc.append(e)
            if self.heavy:
                self.bounds.fact(z3.simplify(e))
                if self.wit is not None and self.wit.truth(e) is not True:
                    self.wit = None
        self.solver.add(e)
        if self.model is not None and not model_ok:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.e)
            self.assumed_dirty = True
        elif not cond:
            raise Infeasible()

    def _solve(self, *assumptions, timeout=None):
        t0 = time.perf_counter()
        eng = self.engine
        if eng.deadline and time.time() > eng.deadline:
            raise Budget('time')
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            s2 = z3.Tactic('qfnra-nlsat').solver()
            s2.set('timeout', eng.query_timeout_ms)
            s2.add(*self.pc)
            s2.add(*assumptions)
            try:
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 != z3.unknown:
                r = r2
                self._last = s2
            else:
                self._last = self.solver
        else:
            self._last = self.solver
        self._count(r, time.perf_counter() - t0)
        return r

    def _count(self, r, dt):
        eng, st = self.engine, self.stats
        st.queries += 1
        st.solver_s += dt
        if r == z3.sat:
            st.q_sat += 1
        elif r == z3.unsat:
            st.q_unsat += 1
        else:
            st.q_unknown += 1
        if eng.query_log is not None:
            eng.query_log.append((str(r), dt))

    # ---- constraint independence
    def _vars(self, e):
        i = e.get_id()
        r = self.var_sets.get(i)
        if r is None:
            r = set()
            todo, seen = [e], set()
            while todo:
                x = todo.pop()
                k = x.get_id()
                if k in seen:
                    continue
                seen.add(k)
                if x.num_args():
                    sub = self.var_sets.get(k)
                    if sub is not None:
                        r |= sub
                    else:
                        todo.extend(x.children())
                elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(k)
            r = frozenset(r)
            self.keep.append(e)
            self.var_sets[i] = r
        return r

    def _slice(self, e):
        """the constraints of the path which e depends on, and their variables"""
        rest = [(c, self._vars(c)) for c in self.pc]
        vs = set(self._vars(e))
        out = []
        while True:
            more, left = [], []
            for c in rest:
                (more if not vs.isdisjoint(c[1]) else left).append(c)
            if not more:
                return out, vs
            rest = left
            for c, w in more:
                out.append(c)
                vs |= w

    def _probe(self, e):
        """whether the path can go on with e: (False only if certainly not, a model of everything or None,
        inputs or None)"""
        cs = None
        if len(self.pc) >= 30:
            cs, vs = self._slice(e)
        if cs is None or len(cs) > len(self.pc) // 2:
            r = self._solve(e)
            if r == z3.unsat:
                return False, None, None
            m = self._last.model() if r == z3.sat else None
            return True, m, None if m is None else self.inputs_of(m)
        t0 = time.perf_counter()
        s = z3.Solver()
        s.set('timeout', self.engine.query_timeout_ms)
        s.add(*cs)
        r = s.check(e)
        self._count(r, time.perf_counter() - t0)
        if r == z3.unsat:
            return False, None, None
        if r == z3.unknown:
            return True, None, None
        if self.wit is not None:
            base = dict(self.wit_vals)
        elif self.model is not None:
            base = self.inputs_of(self.model)
        else:
            return True, None, None
        m = s.model()
        new = self.inputs_of(m)
        for name, kind, v in self.inputs:
            if v.get_id() in vs:
                base[name] = new[name]
        return True, None, base

    def _ensure_model(self):
        if self.model is None:
            r = self._solve()
            if r == z3.sat:
                self.model = self._last.model()
            elif r == z3.unsat:
                raise Infeasible()
        return self.model

    # ---- decisions
    def decide(self, e):
        # every decision has an entry, also the ones which need no solver: how z3 orders the arguments of a simplified
        # term depends on the terms built before, and what is recognised as known may thus differ from run to run
        e = z3.simplify(e)
        if z3.is_true(e):
            return self._entry(True)
        if z3.is_false(e):
            return self._entry(False)
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == 'b', 'non-deterministic harness'
            self.pos += 1
            self.trace.append((kind, val))
            if e.get_id() not in self.known:
                self._take(e, val)
            return val
        k = self.known.get(e.get_id())
        if k is not None:
            return self._entry(k)
        k = self.bounds.truth(e) if self.heavy else None
        if k is not None:
            self.stats.by_bounds += 1
            return self._entry(k)
        self.stats.decisions += 1
        ne = z3.Not(e)
        t = f = mt = mf = v = None
        if self.wit is not None:
            v = self.wit.truth(e)
        if v is None:
            m = self._ensure_model()
            if m is not None:
                if self.heavy and self.wit is None and self.tried is not m:
                    self.tried = m
                    self._set_witness(self.inputs_of(m))
                x = m.eval(e, model_completion=True)
                if z3.is_true(x):
                    t, mt = True, m
                elif z3.is_false(x):
                    f, mf = True, m
        elif v:
            t = True
        else:
            f = True
        if t is None:
            t, mt, wt = self._probe(e)
        elif mt is None:
            wt = dict(self.wit_vals)
        else:
            wt = self.inputs_of(mt)
        if f is None:
            f, mf, wf = self._probe(ne)
        elif mf is None:
            wf = dict(self.wit_vals)
        else:
            wf = self.inputs_of(mf)
        if t and f:
            self.engine.push(self.trace + [('b', False)], wf)
            self.trace.append(('b', True))
            self.pos += 1
            self.model = mt
            if v is not True:
                self.wit = None
            self._take(e, True)
            if v is not True and wt is not None and self.heavy:
                self._set_witness(wt)
            return True
        if not t and not f:
            raise Infeasible()
        val = bool(t)
        # forced: no entry needed in the trace, but the replay of a prefix must see the same number of entries
        self.trace.append(('b', val))
        self.pos += 1
        self.model = mt if val else mf
        if v is not None and v != val:
            self.wit = None
        self._take(e, val, forced=True)
        return val

    def _entry(self, val):
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == 'b' and v == val, 'non-deterministic harness'
        self.trace.append(('b', val))
        self.pos += 1
        return val

    def _take(self, e, val, forced=False):
        self.keep.append(e)
        self.known[e.get_id()] = val
        ne = z3.simplify(z3.Not(e))
        self.keep.append(ne)
        self.known[ne.get_id()] = not val
        if forced:
            return
        self.add(e if val else ne)

    def _value(self, kind):
        """next recorded value, or None if beyond the prefix"""
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            assert k == kind, 'non-deterministic harness'
            return v
        return None

    def pin_int(self, s):
        c = _const(s.e)
        if c is not None:
            return int(c)
        while True:
            v = self._value('v')
            if v is None and self.wit is not None:
                x = self.wit.number(s.e)
                if x is not None and x[1] == 0 and Fraction(x[0]).denominator == 1:
                    v = int(x[0])
            if v is None:
                m = self._ensure_model()
                if m is None:
                    raise Unsupported('no model to concretise an integer')
                v = m.eval(s.e, model_completion=True).as_long()
            self.trace.append(('v', v))
            self.pos += 1
            if self.decide(s.e == v):
                return v

    def pin_real(self, s):
        """a symbolic real meets code which needs a machine float: pinned to one value of the model.
        This loses completeness of the path; it is counted and reported."""
        c = _const(z3.simplify(s.e))
        if c is not None:
            return float(c)
        v = self._value('p')
        if v is None:
            m = self._ensure_model()
            if m is None:
                raise Unsupported('no model to concretise a real')
            v = float(_model_frac(m.eval(s.e, model_completion=True)))
            self.stats.pins += 1
        self.trace.append(('p', v))
        self.pos += 1
        self.add(s.e == realval(v))
        return v

    # ---- uninterpreted functions
    def ufun(self, name, args, axioms=None):
        key = (name,) + tuple(a.get_id() for a in args)
        v = self.ufuns.get(key)
        if v is not None:
            return v
        near = tuple(fingerprint(a) for a in args)
        if None not in near:
            v = self.ufuns.get((name, near))
            if v is not None:
                return v
        self.keep.extend(args)
        v = z3.Real('{}!{}'.format(name, next(self.fresh)))
        self.keep.append(v)
        self.ufuns[key] = v
        if None not in near:
            self.ufuns[(name, near)] = v
        self.bounds.of_var[v.get_id()] = (name, args)
        prev = self.ufun_list.setdefault(name, [])
        if axioms is not None:
            for ax in axioms(v, args, prev):
                self.add(ax, axiom=True)
        prev.append((args, v))
        return v

    # ---- text markers
    def mark(self, s, spec=''):
        for i, (o, sp) in enumerate(self.marks):
            if sp == spec and type(o) is type(s) and o.e.eq(s.e):
                return '{}{}{}'.format(MARK_L, i, MARK_R)
        self.marks.append((s, spec))
        return '{}{}{}'.format(MARK_L, len(self.marks) - 1, MARK_R)

    def new_int(self):
        v = z3.Int('whole!{}'.format(next(self.fresh)))
        self.keep.append(v)
        return v

    def spelling(self):
        """numbers are written out digit by digit inside"""
        import contextlib

        @contextlib.contextmanager
        def spell():
            self.spell = True
            try:
                yield
            finally:
                self.spell = False
        return spell()

    number = staticmethod(unspelled)

    def unmark(self, text):
        """the (symbolic value, spec) of a text which is exactly one marker, or None"""
        t = text.strip()
        if t.startswith(MARK_L) and t.endswith(MARK_R) and t.count(MARK_L) == 1:
            return self.marks[int(t[1:-1])]
        return None

    # ---- assertions
    def guard(self, label):
        """code under test which must not raise.  Symbolically the exception is left to the explorer, which has
        the path replayed on the real code: there it is a violation."""
        import contextlib
        return contextlib.nullcontext()

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def _interior(self, extra=()):
        """inputs of a counterexample away from the boundaries of its conditions (where floats may decide otherwise), or None"""
        try:
            for tau in (Fraction(1, 1000), Fraction(1, 10**7)):
                s = z3.Solver()
                s.set('timeout', 3000)
                s.add(*self.pc)
                s.add(*extra)
                lits = []
                for i, e in enumerate(list(self.user_pc) + list(extra)):
                    f = strict(e, False, z3.RealVal(tau))
                    if f is not None:
                        p = z3.Bool('interior!{}'.format(i))
                        s.add(z3.Implies(p, f))
                        lits.append(p)
                for _ in range(12):
                    r = s.check(*lits)
                    self._count(r, 0.)
                    if r == z3.sat:
                        return self.inputs_of(s.model())
                    if r == z3.unknown:
                        break
                    core = {c.get_id() for c in s.unsat_core()}
                    rest = [p for p in lits if p.get_id() not in core]
                    if len(rest) == len(lits):
                        break
                    lits = rest
        except z3.Z3Exception:
            pass
        return None

    def _fail(self, label, detail, model, extra=()):
        vals = model if isinstance(model, dict) else self.inputs_of(model)
        c = {'label': label, 'detail': detail, 'inputs': vals}
        x = self._interior(extra)
        if x is not None and x != vals:
            c['more'] = x
        self.engine.candidates.append(c)
        self.outcome = ('fail', label)
        raise Failed(label)

    def inputs_of(self, model):
        vals = {}
        for name, kind, v in self.inputs:
            x = model.eval(v, model_completion=True)
            if kind == 'bool':
                vals[name] = z3.is_true(x)
            elif kind == 'int':
                vals[name] = x.as_long()
            else:
                vals[name] = str(_model_frac(x))
        return vals

    def fail(self, label, detail=''):
        """the path itself is a violation"""
        self.reach(label)
        self.stats.checks[label] = self.stats.checks.get(label, 0) + 1
        m = self.any_inputs()
        if m is None:
            self.stats.unknown_checks.append(label)
            raise Failed(label)
        self._fail(label, detail, m)

    def check(self, cond, label, detail=''):
        self.reach(label)
        self.stats.checks[label] = self.stats.checks.get(label, 0) + 1
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                self.stats.syntactic += 1
                return True
            k = self.known.get(e.get_id())
            if k is True:
                return True
            if self.wit is not None and self.wit.truth(e) is False:
                self._fail(label, detail, self.wit_inputs())
            r = self._solve(z3.Not(e))
            if r == z3.unsat:
                return True
            if r == z3.unknown and self.bounds.truth(e):
                self.stats.by_bounds += 1
                return True
            if r == z3.unknown:
                self.stats.unknown_checks.append(label)
                self.add(e)
                return True
            self._fail(label, detail, self._last.model(), [z3.Not(e)])
        if not cond:
            m = self.any_inputs()
            if m is None:
                self.stats.unknown_checks.append(label)
                raise Failed(label)
            self._fail(label, detail, m)
        return True

    def check_eq(self, a, b, label, scale=None, rel=1e-6, detail=''):
        """a == b (numbers); equal within rel * magnitude counts as equal, which only matters if the exact
        equality is refuted"""
        if not is_sym(a) and not is_sym(b):
            ok = num_eq(a, b, scale if scale is None or not is_sym(scale) else None, 1e-9)
            return self.check(ok, label, detail or '{} != {}'.format(a, b))
        if (isinstance(a, float) or isinstance(b, float)) and not (np.isfinite(float(a)) if not is_sym(a) else True):
            return self.check(False, label, detail or 'non-finite')
        if not is_sym(b) and isinstance(b, (float, np.floating)) and not np.isfinite(b):
            return self.check(False, label, detail or 'non-finite')
        if (a is None) or (b is None):
            return self.check(False, label, detail or 'None')
        self.reach(label)
        self.stats.checks[label] = self.stats.checks.get(label, 0) + 1
        ea, eb = term(a), term(b)
        d = normal(ea - eb)
        c = _const(d)
        if c is not None and c == 0:
            self.stats.syntactic += 1
            return True
        if c is None and rounding_only(d, normal(ea), normal(eb)):
            self.stats.tolerance_equal[label] = self.stats.tolerance_equal.get(label, 0) + 1
            return True
        if self.wit is not None and self._clearly(d, ea, eb, scale, rel):
            self._fail(label, detail, self.wit_inputs())
        r = self._solve(d != 0) if c is None else z3.sat
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.stats.unknown_checks.append(label)
            return True
        exact = None if c is not None else self._last.model()
        if c is not None and exact is None:
            exact = self._ensure_model()
        # is the difference beyond the tolerance anywhere?
        if scale is None:
            sc = zabs(ea) + zabs(eb)
        else:
            sc = term(scale)
        m = realval(rel) * sc
        r = self._solve(z3.Or(d > m, d < -m))
        if r == z3.unsat:
            self.stats.tolerance_equal[label] = self.stats.tolerance_equal.get(label, 0) + 1
            return True
        model = self._last.model() if r == z3.sat else exact
        if model is None:
            self.stats.unknown_checks.append(label)
            return True
        self._fail(label, detail, model, [z3.Or(d > m, d < -m)] if r == z3.sat else [])

    def _clearly(self, d, ea, eb, scale, rel):
        """whether the difference is beyond the tolerance at the witness"""
        x = self.wit.number(d)
        sc = [self.wit.number(e) for e in ((ea, eb) if scale is None else (term(scale),))]
        if x is None or None in sc:
            return False
        m = float(rel) * sum(abs(float(v)) + err for v, err in sc)
        return abs(float(x[0])) - 2 * x[1] > 2 * m

    def check_le(self, a, b, label, scale=None, rel=1e-6, detail=''):
        if not is_sym(a) and not is_sym(b):
            tol = 1e-9 * max(abs(a), abs(b)) if scale is None or is_sym(scale) else 1e-9 * abs(scale)
            return self.check(bool(a <= b + tol), label, detail or '{} > {}'.format(a, b))
        self.reach(label)
        self.stats.checks[label] = self.stats.checks.get(label, 0) + 1
        c = (a <= b)
        if isinstance(c, (bool, np.bool_)):
            return self.check(bool(c), label, detail)
        r = self._solve(z3.Not(c.e))
        if r == z3.unsat:
            return True
        if r == z3.unknown and self.bounds.truth(c.e):
            self.stats.by_bounds += 1
            return True
        if r == z3.unknown:
            self.stats.unknown_checks.append(label)
            return True
        model = self._last.model()
        ea, eb = term(a), term(b)
        sc = term(scale) if scale is not None else zabs(ea) + zabs(eb)
        r = self._solve(ea > eb + realval(rel) * sc)
        if r == z3.unsat:
            self.stats.tolerance_equal[label] = self.stats.tolerance_equal.get(label, 0) + 1
            return True
        if r == z3.sat:
            model = self._last.model()
        self._fail(label, detail, model, [ea > eb + realval(rel) * sc])

    def check_lt(self, a, b, label, detail=''):
        return self.check(a < b, label, detail)


def term(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return toreal(x.e)
    if isinstance(x, SymBool):
        return toreal(x._i().e)
    return realval(x)


def strict(e, neg, tau):
    """a formula which implies e (or its negation) with a margin in each comparison of reals; None where there is nothing to do"""
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        return strict(e.arg(0), not neg, tau)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        parts = [(strict(a, neg, tau), z3.Not(a) if neg else a) for a in e.children()]
        if all(p is None for p, _ in parts):
            return None
        join = z3.And if (k == z3.Z3_OP_AND) != neg else z3.Or
        return join(*[a if p is None else p for p, a in parts])
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and e.arg(0).sort() == z3.RealSort():
        a, b = e.arg(0), e.arg(1)
        less = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg
        return a + tau <= b if less else a >= b + tau
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and (k == z3.Z3_OP_EQ) == neg and e.num_args() == 2 and e.arg(0).sort() == z3.RealSort():
        a, b = e.arg(0), e.arg(1)
        return z3.Or(a + tau <= b, a >= b + tau)
    return None


def zabs(e):
    return z3.If(e >= 0, e, -e)


def num_eq(a, b, scale=None, rel=1e-9):
    if a is None or b is None:
        return a is None and b is None
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    tol = rel * (max(abs(a), abs(b)) if scale is None else abs(float(scale)))
    return abs(a - b) <= tol


def _model_frac(x):
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return x.as_fraction()
    if z3.is_algebraic_value(x):
        return x.approx(30).as_fraction()
    raise Unsupported('model value {}'.format(x))


# ------------------------------------------------------------------ Engine ---
class Engine(object):
    def __init__(self, query_timeout_ms=15000, max_paths=100000, time_limit=None, max_candidates=6, query_log=None):
        self.stats = Stats()
        self.work = []
        self.candidates = []
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.max_candidates = max_candidates
        self.deadline = time.time() + time_limit if time_limit else None
        self.query_log = query_log
        self.samples = []  # models of finished paths: used to validate the executor against the real code
        self.unsupported_samples = []
        self.report = None  # called after every path

    def push(self, prefix, start=None):
        self.work.append((prefix, start))

    def explore(self, harness, params):
        global CUR
        st = self.stats
        self.work = [([], {})]
        while self.work:
            if st.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                st.budget_hit = True
                break
            if len(self.candidates) >= self.max_candidates:
                break
            prefix, start = self.work.pop()
            ctx = CUR = Ctx(self, prefix, start)
            st.paths += 1
            try:
                harness(ctx, **params)
                ctx.outcome = ('ok', None)
                self._sample(ctx)
            except Infeasible:
                st.infeasible += 1
            except Failed:
                st.failed_paths += 1
            except Budget:
                st.budget_hit = True
            except Unsupported as exc:
                self._unsupported(ctx, 'Unsupported: {}'.format(exc))
            except PathAbort:
                raise
            except RecursionError as exc:
                self._unsupported(ctx, repr(exc))
            except Exception as exc:  # an exception which escaped the harness
                self._unsupported(ctx, exc)
            finally:
                CUR = None
            if self.report is not None:
                self.report(bool(self.candidates))
        return self

    def _sample(self, ctx):
        if len(self.samples) < 60 or self.stats.paths % 17 == 0:
            try:
                m = ctx.any_inputs()
                if m is not None:
                    self.samples.append(m)
                    if len(self.samples) > 400:
                        self.samples = self.samples[::2]
            except PathAbort:
                pass

    def _unsupported(self, ctx, exc):
        import traceback
        if isinstance(exc, str):
            text = exc
        else:
            tb = traceback.extract_tb(exc.__traceback__)
            text = '{}: {} @ {}'.format(type(exc).__name__, exc, '; '.join(
                '{}:{}'.format(f.filename.split('/')[-1], f.lineno) for f in tb[-4:]))
        try:
            x = ctx.any_inputs()
        except Infeasible:
            self.stats.infeasible += 1
            return
        except (PathAbort, z3.Z3Exception):
            x = None
        self.stats.unsupported.append(text[:400])
        try:
            if x is not None:
                self.unsupported_samples.append(x)
                # other assignments of the same path
                for name, kind, v in ctx.inputs[:12]:
                    d = v != (z3.BoolVal(x[name]) if kind == 'bool' else z3.IntVal(x[name]) if kind == 'int' else z3.RealVal(x[name]))
                    if ctx._solve(d) == z3.sat:
                        self.unsupported_samples.append(ctx.inputs_of(ctx._last.model()))
        except (PathAbort, z3.Z3Exception):
            pass


# --------------------------------------------------------------- concrete ----
class ConcreteCtx(object):
    """the same interface over plain python numbers: used to replay an assignment on the real code"""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.violations = []
        self.reached = {}
        self.infeasible = False
        self.notes = {}

    def spelling(self):
        import contextlib
        return contextlib.nullcontext()

    number = staticmethod(float)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, npy=False):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        return np.float64(v) if npy else v

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def bool(self, name):
        return bool(self.values.get(name, False))

    flag = bool

    def choice(self, name, options):
        return list(options)[self.int(name, 0, 0)]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def guard(self, label):
        return _Guard(self, label)

    def fail(self, label, detail=''):
        self.reach(label)
        self.violations.append({'label': label, 'detail': str(detail)[:500]})
        raise Failed(label)

    def check(self, cond, label, detail=''):
        self.reach(label)
        if not cond:
            self.violations.append({'label': label, 'detail': str(detail)[:500]})
            raise Failed(label)
        return True

    def check_eq(self, a, b, label, scale=None, rel=1e-6, detail=''):
        ok = num_eq(a, b, scale, max(rel * 1e-2, 1e-9))
        return self.check(ok, label, detail or '{!r} != {!r}'.format(a, b))

    def check_le(self, a, b, label, scale=None, rel=1e-6, detail=''):
        tol = rel * 1e-2 * (max(abs(a), abs(b)) if scale is None else abs(scale))
        return self.check(a <= b + tol, label, detail or '{!r} > {!r}'.format(a, b))

    def check_lt(self, a, b, label, detail=''):
        return self.check(a < b, label, detail or '{!r} >= {!r}'.format(a, b))

    def mark(self, s, spec=''):
        return format(s, spec)


class _Guard(object):
    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Exception):
            import traceback
            self.ctx.fail(self.label, 'raised {}: {} @ {}'.format(et.__name__, ev, '; '.join(
                '{}:{}'.format(f.filename.split('/')[-1], f.lineno) for f in traceback.extract_tb(tb)[-3:])))
        return False
