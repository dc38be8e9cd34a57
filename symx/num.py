"""Cheap reasoning about z3 terms which spares solver calls: interval bounds (sound) and numeric evaluation at a witness.

bounds(ctx, e)   -> (lo, hi, signs) with e in [lo, hi] and sign(e) in signs on the current path
Numeric(ctx, w)  -> evaluates terms at an assignment of the inputs, uninterpreted functions by the functions they stand for;
                    values carry an error bound and a comparison is only decided if it is clear
"""
import math
from fractions import Fraction

import z3

INF = float('inf')
ALL = frozenset((-1, 0, 1))
SLACK = 1e-12


def _out(lo, hi):
    if lo != 0 and abs(lo) != INF:
        lo -= abs(lo) * SLACK
    if hi != 0 and abs(hi) != INF:
        hi += abs(hi) * SLACK
    return lo, hi


def _norm(lo, hi, sg):
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    s = set(sg)
    if lo > 0:
        s &= {1}
    elif lo >= 0:
        s &= {0, 1}
    if hi < 0:
        s &= {-1}
    elif hi <= 0:
        s &= {-1, 0}
    if -1 not in s and lo < 0:
        lo = 0.
    if 1 not in s and hi > 0:
        hi = 0.
    return lo, hi, frozenset(s) if s else ALL


def _add(a, b):
    lo, hi = _out(a[0] + b[0], a[1] + b[1])
    sg = set()
    for x in a[2]:
        for y in b[2]:
            if x == 0:
                sg.add(y)
            elif y == 0 or x == y:
                sg.add(x)
            else:
                sg |= ALL
    return _norm(lo, hi, sg)


def _mul(a, b):
    c = []
    for x in a[:2]:
        for y in b[:2]:
            c.append(0. if x == 0 or y == 0 else x * y)
    lo, hi = _out(min(c), max(c))
    return _norm(lo, hi, {x * y for x in a[2] for y in b[2]})


TOP = (-INF, INF, ALL)


def _f(x):
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF


def _num_iv(v):
    f = _f(v)
    s = (v > 0) - (v < 0)
    lo, hi = (f, f) if Fraction(v) == v and abs(f) != INF and Fraction(f) == v else _out(f, f)
    if f == 0 and s:
        lo, hi = (0., 1e-300) if s > 0 else (-1e-300, 0.)
    return _norm(lo, hi, {s})


def value_of(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


class Bounds(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.facts = {}  # term id -> interval
        self.memo = {}
        self.keep = []
        self.of_var = {}  # id of an uninterpreted function's variable -> (name, args)

    def fact(self, e):
        """learn from a constraint"""
        neg = False
        while z3.is_not(e):
            neg = not neg
            e = e.arg(0)
        if z3.is_and(e) and not neg:
            for c in e.children():
                self.fact(c)
            return
        if z3.is_or(e) and neg:
            for c in e.children():
                self.fact(z3.Not(c))
            return
        if not (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e) or z3.is_eq(e)):
            return
        a, b = e.children()
        if not z3.is_arith(a):
            return
        c = value_of(b)
        if c is None:
            a = z3.simplify(a - b, som=True)
            c = Fraction(0)
            k = value_of(a)
            if k is not None:
                return
            if z3.is_add(a):
                k = value_of(a.arg(0))
                if k is not None:
                    rest = a.children()[1:]
                    a = rest[0] if len(rest) == 1 else z3.simplify(z3.Sum(rest), som=True)
                    c = -k
        kind = '==' if z3.is_eq(e) else '<=' if z3.is_le(e) else '>=' if z3.is_ge(e) else '<' if z3.is_lt(e) else '>'
        if neg:
            kind = {'==': '!=', '<=': '>', '>=': '<', '<': '>=', '>': '<='}[kind]
        self.learn(a, kind, c)

    def learn(self, a, kind, c):
        lo, hi, sg = -INF, INF, set(ALL)
        f = _f(c)
        if kind in ('<=', '<'):
            hi = _out(f, f)[1] if Fraction(f) != c else f
            if c == 0:
                sg = {-1} if kind == '<' else {-1, 0}
            elif c < 0:
                sg = {-1}
        elif kind in ('>=', '>'):
            lo = _out(f, f)[0] if Fraction(f) != c else f
            if c == 0:
                sg = {1} if kind == '>' else {0, 1}
            elif c > 0:
                sg = {1}
        elif kind == '==':
            lo, hi, sg = _num_iv(c)
        elif kind == '!=' and c == 0:
            sg = {-1, 1}
        if z3.is_mul(a) and a.num_args() == 2:
            k = value_of(a.arg(0))
            if k is not None and k != 0:
                iv = _mul((lo, hi, frozenset(sg)), _num_iv(1 / k))
                self._put(a.arg(1), iv)
                return
        self._put(a, (lo, hi, frozenset(sg)))

    def _put(self, a, iv):
        old = self.facts.get(a.get_id(), TOP)
        lo, hi, sg = max(old[0], iv[0]), min(old[1], iv[1]), old[2] & iv[2]
        new = _norm(lo, hi, sg) if sg else iv
        if new != old:
            self.keep.append(a)
            self.facts[a.get_id()] = new
            self.memo.clear()

    def get(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._get(e)
            f = self.facts.get(i)
            if f is None and z3.is_add(e):
                n = z3.simplify(e, som=True)
                f = self.facts.get(n.get_id())
                if f is None:
                    self.keep.append(n)
                    m = z3.simplify(-e, som=True)
                    g = self.facts.get(m.get_id())
                    if g is not None:
                        f = _mul(g, _num_iv(Fraction(-1)))
            if f is not None:
                sg = r[2] & f[2]
                r = _norm(max(r[0], f[0]), min(r[1], f[1]), sg or r[2])
            self.keep.append(e)
            self.memo[i] = r
        return r

    def _get(self, e):
        v = value_of(e)
        if v is not None:
            return _num_iv(v)
        if z3.is_add(e):
            r = None
            for c in e.children():
                iv = self.get(c)
                r = iv if r is None else _add(r, iv)
            return r
        if z3.is_mul(e):
            r = None
            seen = {}
            for c in e.children():
                seen.setdefault(c.get_id(), [c, 0])[1] += 1
            for c, n in seen.values():
                iv = self._pow(self.get(c), n)
                r = iv if r is None else _mul(r, iv)
            return r
        if z3.is_sub(e):
            a, b = e.children()
            return _add(self.get(a), _mul(self.get(b), _num_iv(Fraction(-1))))
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            return _mul(self.get(e.arg(0)), _num_iv(Fraction(-1)))
        if z3.is_to_real(e):
            return self.get(e.arg(0))
        if z3.is_app_of(e, z3.Z3_OP_POWER):
            n = value_of(e.arg(1))
            if n is not None and n.denominator == 1 and 0 < n < 20:
                return self._pow(self.get(e.arg(0)), int(n))
            return TOP
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c = self.truth(e.arg(0))
            if c is not None:
                return self.get(e.arg(1) if c else e.arg(2))
            a, b = self.get(e.arg(1)), self.get(e.arg(2))
            return min(a[0], b[0]), max(a[1], b[1]), a[2] | b[2]
        u = self.of_var.get(e.get_id())
        if u is not None:
            return self._fun(*u)
        return TOP

    @staticmethod
    def _pow(iv, n):
        r = iv
        for _ in range(n - 1):
            r = _mul(r, iv)
        if n % 2 == 0:
            sg = {s * s for s in iv[2]}
            hi = max(abs(iv[0]), abs(iv[1]))
            lo = 0. if 0 in iv[2] or (-1 in iv[2] and 1 in iv[2]) else min(abs(iv[0]), abs(iv[1]))
            try:
                lo, hi = _out(lo ** n, hi ** n)
            except OverflowError:
                lo, hi = 0., INF
            r = _norm(max(lo, 0.), hi, sg)
        return r

    def _fun(self, name, args):
        a = self.get(args[0])
        lo, hi, sg = a
        try:
            if name == 'inv':
                if sg == {1} or sg == {-1}:
                    x = 1 / hi if hi not in (0., INF) and abs(hi) > 1e-300 else (0. if abs(hi) == INF else -INF)
                    y = 1 / lo if lo not in (0., -INF) and abs(lo) > 1e-300 else (0. if abs(lo) == INF else INF)
                    l, h = _out(min(x, y), max(x, y))
                    return _norm(l, h, sg)
                return -INF, INF, frozenset(sg - {0}) or ALL
            if name == 'sqrt':
                l, h = _out(math.sqrt(max(lo, 0.)), math.sqrt(hi) if hi >= 0 else INF)
                return _norm(max(l, 0.), h, {s for s in sg if s >= 0} or {0, 1})
            if name == 'exp':
                l, h = math.exp(max(lo, -700.)) if lo > -700 else 0., math.exp(hi) if hi < 700 else INF
                l, h = _out(l, h)
                return _norm(max(l, 0.), h, {1})
            if name == 'log':
                l, h = math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF
                return _norm(l - 1e-9, h + 1e-9, ALL)
            if name == 'pow':
                return _norm(0., INF, {1})
        except (OverflowError, ZeroDivisionError):
            pass
        return TOP

    def truth(self, e):
        """True / False if the bounds decide the condition, else None"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_not(e):
            t = self.truth(e.arg(0))
            return None if t is None else not t
        if z3.is_and(e) or z3.is_or(e):
            ts = [self.truth(c) for c in e.children()]
            stop = z3.is_or(e)
            if stop in ts:
                return stop
            return None if None in ts else not stop
        if z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e) or z3.is_eq(e):
            a, b = e.children()
            if not z3.is_arith(a):
                return None
            d = self.diff(a, b)
            s = d[2]
            if z3.is_eq(e):
                return False if 0 not in s else True if s == {0} else None
            if z3.is_ge(e):
                a, b, s = b, a, {-x for x in s}
                strict = False
            elif z3.is_gt(e):
                s = {-x for x in s}
                strict = True
            else:
                strict = z3.is_lt(e)
            # a - b (<|<=) 0
            if strict:
                return True if s == {-1} else False if -1 not in s else None
            return True if 1 not in s else False if s == {1} else None
        return None

    def diff(self, a, b):
        x, y = self.get(a), self.get(b)
        d = _add(x, _mul(y, _num_iv(Fraction(-1))))
        if len(d[2]) > 1:
            if x[0] > y[1]:
                d = (d[0], d[1], frozenset({1}))
            elif x[1] < y[0]:
                d = (d[0], d[1], frozenset({-1}))
            else:
                s = set(d[2])
                if x[0] >= y[1]:
                    s &= {0, 1}
                if x[1] <= y[0]:
                    s &= {0, -1}
                if s:
                    d = (d[0], d[1], frozenset(s))
        if len(d[2]) > 1 and value_of(b) is None:
            n = z3.simplify(a - b, som=True)
            self.keep.append(n)
            e = self.get(n)
            s = e[2] & d[2]
            if s:
                d = (max(d[0], e[0]), min(d[1], e[1]), s)
        return d


class Undecided(Exception):
    pass


class Numeric(object):
    def __init__(self, ctx, values):
        self.ctx = ctx
        self.values = values  # id of an input's variable -> Fraction / bool
        self.memo = {}

    def truth(self, e):
        try:
            return self.ev(e)
        except (Undecided, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            return None

    def number(self, e):
        """(value, error) or None"""
        try:
            v = self.ev(e)
        except (Undecided, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            return None
        return (v, 0.) if isinstance(v, Fraction) else v

    def ev(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = (self._ev(e), e)
            self.memo[i] = r
        return r[0]

    @staticmethod
    def _pair(v):
        if isinstance(v, Fraction):
            f = float(v)
            return f, abs(f) * 2e-16
        return v

    def _trim(self, v):
        if isinstance(v, Fraction) and v.denominator.bit_length() + v.numerator.bit_length() > 600:
            return self._pair(v)
        return v

    def _sum(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return self._trim(a + b)
        (x, ex), (y, ey) = self._pair(a), self._pair(b)
        return self._ok(x + y, ex + ey + abs(x + y) * 3e-16)

    def _prod(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return self._trim(a * b)
        if isinstance(a, Fraction) and a == 0 or isinstance(b, Fraction) and b == 0:
            return Fraction(0)
        (x, ex), (y, ey) = self._pair(a), self._pair(b)
        return self._ok(x * y, abs(x) * ey + abs(y) * ex + ex * ey + abs(x * y) * 3e-16)

    @staticmethod
    def _ok(v, err):
        if math.isnan(v) or math.isinf(v) or math.isnan(err) or math.isinf(err):
            raise Undecided()
        return v, err

    def _cmp(self, a, b):
        """-1, 0, 1"""
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return (a > b) - (a < b)
        (x, ex), (y, ey) = self._pair(a), self._pair(b)
        d = x - y
        if abs(d) <= 4 * (ex + ey) + 1e-12 * (abs(x) + abs(y)):
            raise Undecided()
        return 1 if d > 0 else -1

    def _ev(self, e):
        v = value_of(e)
        if v is not None:
            return v
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_ADD:
            r = Fraction(0)
            for c in e.children():
                r = self._sum(r, self.ev(c))
            return r
        if k == z3.Z3_OP_SUB:
            a, b = e.children()
            return self._sum(self.ev(a), self._prod(Fraction(-1), self.ev(b)))
        if k == z3.Z3_OP_UMINUS:
            return self._prod(Fraction(-1), self.ev(e.arg(0)))
        if k == z3.Z3_OP_MUL:
            r = Fraction(1)
            for c in e.children():
                r = self._prod(r, self.ev(c))
            return r
        if k == z3.Z3_OP_POWER:
            n = value_of(e.arg(1))
            if n is None or n.denominator != 1 or not 0 <= n < 20:
                raise Undecided()
            b = self.ev(e.arg(0))
            r = Fraction(1)
            for _ in range(int(n)):
                r = self._prod(r, b)
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.ev(e.arg(0))
        if k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT):
            v = self.ev(e.arg(0))
            if not isinstance(v, Fraction):
                raise Undecided()
            return Fraction(math.floor(v)) if k == z3.Z3_OP_TO_INT else v.denominator == 1
        if k == z3.Z3_OP_ITE:
            return self.ev(e.arg(1) if self.ev(e.arg(0)) else e.arg(2))
        if k == z3.Z3_OP_NOT:
            return not self.ev(e.arg(0))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            unsure = False
            for c in e.children():
                try:
                    if self.ev(c) == stop:
                        return stop
                except Undecided:
                    unsure = True
            if unsure:
                raise Undecided()
            return not stop
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(e.arg(0))) or self.ev(e.arg(1))
        if k in (z3.Z3_OP_XOR,):
            return self.ev(e.arg(0)) != self.ev(e.arg(1))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if e.num_args() != 2:
                raise Undecided()
            a, b = self.ev(e.arg(0)), self.ev(e.arg(1))
            same = a == b if isinstance(a, bool) else self._cmp(a, b) == 0
            return same if k == z3.Z3_OP_EQ else not same
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            c = self._cmp(self.ev(e.arg(0)), self.ev(e.arg(1)))
            return {z3.Z3_OP_LE: c <= 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GT: c > 0}[k]
        i = e.get_id()
        if i in self.values:
            return self.values[i]
        u = self.ctx.bounds.of_var.get(i)
        if u is not None:
            return self._fun(*u)
        raise Undecided()

    def _fun(self, name, args):
        a = self.ev(args[0])
        if name == 'inv':
            if isinstance(a, Fraction):
                return self._trim(1 / a)
            x, ex = a
            if abs(x) <= 2 * ex:
                raise Undecided()
            return self._ok(1 / x, ex / (abs(x) * (abs(x) - ex)) + abs(1 / x) * 3e-16)
        x, ex = self._pair(a)
        if name == 'sqrt':
            if isinstance(a, Fraction):
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fraction(n, d)
            if x <= 2 * ex:
                raise Undecided()
            r = math.sqrt(x)
            return self._ok(r, ex / r + r * 3e-16)
        if name == 'exp':
            r = math.exp(x)
            return self._ok(r, r * (math.expm1(ex) * 2 + 1e-15))
        if name == 'log':
            if x <= 2 * ex:
                raise Undecided()
            r = math.log(x)
            return self._ok(r, 2 * ex / x + abs(r) * 1e-15 + 1e-16)
        if name == 'pow':
            y, ey = self._pair(self.ev(args[1]))
            if x <= 2 * ex:
                raise Undecided()
            r = x ** y
            return self._ok(r, abs(r) * (abs(y) * 2 * ex / x + abs(math.log(x)) * ey + 1e-14))
        raise Undecided()
