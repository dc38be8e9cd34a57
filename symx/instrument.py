"""Loads the code under test from /repo's current source, with the handful of rewritings which let proxies flow.

* calls of the builtins float / int / round / min / max / isinstance / type / bool ... by name go to shims which
  know the proxies (anything else about them is the builtin's behaviour);
* the module global bound to numpy is replaced by a front end which allocates object arrays and which maps
  exp / log / sqrt / maximum ... over proxies;
* every function records that it was executed (the evidence lists the functions which were encoded).

Nothing is stored: the source is read and compiled on every run.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math
import numbers
import os
import sys
import types

import numpy as np
import z3
from scipy.interpolate import interp1d as _interp1d

from . import core
from .core import SymBase, SymBool, SymInt, SymNum, SymReal, ite, is_sym

PACKAGES = ('plaschem', 'pygmo_fwork')
ENTERED = set()
REPO = os.environ.get('SYMX_REPO', '/repo')


# ------------------------------------------------------- builtin shims -------
class _Shims(object):
    @staticmethod
    def enter(name):
        ENTERED.add(name)

    @staticmethod
    def callee(f):
        if f is map:
            return lambda g, *its: map(_Shims.callee(g), *its)
        for n in ('float', 'int', 'bool', 'isinstance', 'type', 'max', 'min'):
            if f is getattr(builtins, n):
                return getattr(_Shims, n)
        if f is np.float64:
            return lambda x: lift(x) if is_sym(x) else np.float64(x)
        return f

    @staticmethod
    def float(*a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymReal):
                return SymReal(x.e, False)
            if isinstance(x, SymInt):
                return SymReal(core.toreal(x.e))
            if isinstance(x, SymBool):
                return SymReal(core.toreal(x._i().e))
            if isinstance(x, str) and core.CUR is not None and core.MARK_L in x:
                m = core.CUR.unmark(x)
                if m is not None and m[1] == '':
                    v = m[0]
                    return SymReal(core.term(v))
                raise ValueError('could not convert string to float: {!r}'.format(x))
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                return _Shims.float(x.reshape(-1)[0])
        return builtins.float(*a)

    @staticmethod
    def int(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return x._i()
            if isinstance(x, SymReal):
                e = x.e
                return SymInt(z3.simplify(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))))
            if isinstance(x, str) and core.CUR is not None and core.MARK_L in x:
                m = core.CUR.unmark(x)
                if m is not None and m[1] == '' and isinstance(m[0], SymInt):
                    return m[0]
                raise ValueError('invalid literal for int() with base 10: {!r}'.format(x))
        return builtins.int(*a, **k)

    @staticmethod
    def bool(*a):
        return builtins.bool(*a)

    @staticmethod
    def isinstance(x, t):
        if isinstance(x, SymBase):
            ts = t if isinstance(t, tuple) else (t,)
            flat = []
            for c in ts:
                flat.extend(c if isinstance(c, tuple) else (c,))
            rep = _rep_type(x)
            return any(isinstance(c, type) and issubclass(rep, c) for c in flat)
        return builtins.isinstance(x, t)

    @staticmethod
    def type(*a):
        if len(a) == 1 and isinstance(a[0], SymBase):
            return _rep_type(a[0])
        return builtins.type(*a)

    @staticmethod
    def set(*a):
        if len(a) == 1 and core.CUR is not None:
            xs = list(a[0])
            if any(isinstance(x, SymReal) and core._const(x.e) is None for x in xs):
                return _SymSet(xs)
            return builtins.set(xs)
        return builtins.set(*a)

    @staticmethod
    def max(*a, **k):
        return _Shims._extreme(builtins.max, core.smax, a, k)

    @staticmethod
    def within(x, xs, negated):
        # whether a symbolic value is among the numbers of an array is one question, instead of a path for each of them
        if is_sym(x) and isinstance(xs, np.ndarray) and xs.ndim == 1 and 0 < builtins.len(xs) <= 64:
            out = None
            for y in xs:
                c = x == y
                c = core.SymBool(core.z3.BoolVal(c)) if builtins.isinstance(c, (builtins.bool, np.bool_)) else c
                out = c if out is None else out | c
            return ~out if negated else out
        return (x not in xs) if negated else (x in xs)

    @staticmethod
    def min(*a, **k):
        return _Shims._extreme(builtins.min, core.smin, a, k)

    @staticmethod
    def _extreme(real, sym, a, k):
        if not k:
            xs = list(a) if len(a) > 1 else list(a[0])
            if any(is_sym(x) for x in xs) and all(
                    is_sym(x) or builtins.isinstance(x, (builtins.int, builtins.float, np.number)) for x in xs):
                return sym(*xs)
            return real(*xs) if len(xs) > 1 else real(xs)
        return real(*a, **k)


class _SymSet(object):
    """distinct elements, equality decided by the solver"""

    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if x not in self:
                self.xs.append(x)

    def __contains__(self, v):
        return any(bool(v == x) for x in self.xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __eq__(self, other):
        return len(self) == len(other) and all(x in self for x in other)

    __hash__ = None


def _rep_type(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    return np.float64 if x.npy else float


SHIMMED = {n for n in dir(_Shims) if not n.startswith('_') and n not in ('enter', 'callee', 'within')}


# ----------------------------------------------------------- AST rewriting ---
class Rewrite(ast.NodeTransformer):
    def __init__(self, modname, shadowed, bound=()):
        self.stack = [modname]
        self.shadowed = shadowed
        self.bound = bound

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SHIMMED and f.id not in self.shadowed:
            node.func = ast.copy_location(ast.Attribute(
                value=ast.copy_location(ast.Name(id='__sx__', ctx=ast.Load()), f), attr=f.id, ctx=ast.Load()), f)
        elif isinstance(f, (ast.Subscript, ast.Call)) or (
                isinstance(f, ast.Attribute) and f.attr in ('float64', 'double', 'float_')) or (
                isinstance(f, ast.Name) and (f.id == 'map' or f.id in self.bound)):
            # the callee is computed: it may turn out to be one of the builtins
            node.func = ast.copy_location(ast.Call(
                func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr='callee', ctx=ast.Load()),
                args=[f], keywords=[]), f)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.parse('__sx__.within(0, 0, {})'.format(isinstance(node.ops[0], ast.NotIn)), mode='eval').body
            call.args[:2] = [node.left, node.comparators[0]]
            for n in (call, call.func, call.func.value, call.args[2]):
                ast.copy_location(n, node)
            return call
        return node

    def _func(self, node):
        self.stack.append(node.name)
        name = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        call = ast.parse('__sx__.enter({!r})'.format(name)).body[0]
        for n in ast.walk(call):
            ast.copy_location(n, node.body[0])
        i = 0
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(
                b[0].value.value, str) and len(b) > 1:
            i = 1
        node.body.insert(i, call)
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def _shadowed(tree):
    """names of shimmed builtins which the module rebinds somewhere"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in SHIMMED:
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SHIMMED and False:
            out.add(n.name)
        elif isinstance(n, ast.arg) and n.arg in SHIMMED:
            out.add(n.arg)
        elif isinstance(n, ast.alias) and (n.asname or n.name) in SHIMMED:
            out.add(n.asname or n.name)
    return out


def _bound(tree):
    """names which hold computed values: calls through them may reach one of the builtins"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewrite(module.__name__, _shadowed(tree), _bound(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__['__sx__'] = _Shims
        exec(compile(tree, self.path, 'exec'), module.__dict__)
        patch_numpy(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        parts = fullname.split('.')
        if parts[0] not in PACKAGES:
            return None
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(p, True), submodule_search_locations=[base])
        if os.path.isdir(base):
            return None
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, False))
        return None


def install():
    sys.meta_path.insert(0, Finder())


class YamlFront(types.ModuleType):
    """yaml as an environment: dump followed by load gives the same plain data back.  Data with symbolic leaves go
    to a table, the file holds the key."""

    def __init__(self):
        super().__init__('yaml')

    def __getattr__(self, name):
        import yaml
        return getattr(yaml, name)

    def dump(self, data, stream=None, **k):
        import copy
        import yaml
        if core.CUR is None or not _deep_sym(data):
            return yaml.dump(data, stream, **k) if stream is not None else yaml.dump(data, **k)
        _plain(data)
        store = core.CUR.notes.setdefault('yaml', [])
        store.append(copy.deepcopy(data))
        text = 'symbolic-document: {}\n'.format(len(store) - 1)
        if stream is None:
            return text
        stream.write(text)

    safe_dump = dump

    def load(self, stream, Loader=None):
        import copy
        import yaml
        text = stream if isinstance(stream, str) else stream.read()
        if core.CUR is not None and text.startswith('symbolic-document: '):
            return copy.deepcopy(core.CUR.notes['yaml'][int(text.split()[1])])
        return yaml.load(text, Loader or yaml.FullLoader)

    def safe_load(self, stream):
        return self.load(stream)

    def full_load(self, stream):
        return self.load(stream)


def _moments(nanops):
    """means and variances of columns with symbolic values (pandas casts them to machine numbers)"""
    if hasattr(nanops.nanmean, 'symx'):
        return

    def wrap(real, of):
        def f(values, *a, axis=None, skipna=True, **k):
            if core.CUR is None or not builtins.isinstance(values, np.ndarray) or values.dtype != object or not _has_sym(values):
                return real(values, *a, axis=axis, skipna=skipna, **k)

            def one(xs):
                keep = [x for x in xs if is_sym(x) or x == x]
                if builtins.len(keep) < builtins.len(xs) and not skipna:
                    return np.nan
                return of(keep, *a, **{n: v for n, v in k.items() if n != 'mask'})
            if axis is None or values.ndim == 1:
                return one(list(values.ravel()))
            rows = np.moveaxis(values, axis, -1)
            out = np.empty(rows.shape[:-1], dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = one(list(rows[i]))
            return out
        f.symx = True
        return f

    def total(xs):
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r

    def mean(xs, **k):
        return total(xs) / builtins.float(builtins.len(xs)) if xs else np.nan

    def var(xs, ddof=1, **k):
        if builtins.len(xs) <= ddof:
            return np.nan
        m = mean(xs)
        return total([(m - x) ** 2 for x in xs]) / builtins.float(builtins.len(xs) - ddof)

    def std(xs, ddof=1, **k):
        v = var(xs, ddof)
        return np.sqrt(v) if not is_sym(v) else v.sqrt()
    from pandas.core.groupby.ops import WrappedCythonOp as Op
    grouped = Op.cython_operation

    def cython_operation(self, *, values, axis, comp_ids, ngroups, **k):
        of = {'mean': mean, 'std': std, 'var': var}.get(self.how)
        if (core.CUR is None or of is None or not builtins.isinstance(values, np.ndarray) or values.dtype != object or not _has_sym(values)):
            return grouped(self, values=values, axis=axis, comp_ids=comp_ids, ngroups=ngroups, **k)
        rows = np.moveaxis(np.atleast_2d(values), -1, 0) if axis == values.ndim - 1 else np.atleast_2d(values)
        kw = {n: v for n, v in k.items() if n == 'ddof'}
        out = np.empty((ngroups,) + rows.shape[1:], dtype=object)
        for g in builtins.range(ngroups):
            for i in np.ndindex(rows.shape[1:]):
                xs = [rows[(j,) + i] for j in builtins.range(builtins.len(comp_ids)) if comp_ids[j] == g]
                out[(g,) + i] = of([x for x in xs if is_sym(x) or x == x], **kw)
        out = np.moveaxis(out, 0, -1) if axis == values.ndim - 1 else out
        return out.reshape(values.shape[:-1] + (ngroups,)) if axis == values.ndim - 1 else out
    Op.cython_operation = cython_operation
    nanops.nanmean = wrap(nanops.nanmean, mean)
    nanops.nanstd = wrap(nanops.nanstd, std)
    nanops.nanvar = wrap(nanops.nanvar, var)


class PandasFront(types.ModuleType):
    """pandas with csv files as an environment: a cell with a symbolic value is written as a marker and read back as the value,
    rounded as the float format of the writer says"""

    def __init__(self, pd):
        super().__init__('pandas')
        self.__dict__['_pd'] = pd
        write = pd.DataFrame.to_csv
        if not hasattr(write, 'symx'):
            def to_csv(df, *a, float_format=None, **k):
                if core.CUR is not None and float_format is not None and _has_sym(df.to_numpy(dtype=object)):
                    spec = float_format if isinstance(float_format, str) else '%?'
                    df = df.map(lambda v: core.CUR.mark(v, spec) if is_sym(v) else v)
                return write(df, *a, float_format=float_format, **k)
            to_csv.symx = True
            pd.DataFrame.to_csv = to_csv

        _moments(pd.core.nanops)

    def __getattr__(self, name):
        return getattr(self._pd, name)

    def read_csv(self, *a, **k):
        df = self._pd.read_csv(*a, **k)
        if core.CUR is None:
            return df
        for i, c in enumerate(df.columns):
            col = df.iloc[:, i]
            if col.dtype == object and any(isinstance(x, str) and core.MARK_L in x for x in col):
                df[c] = self._pd.Series([_parsed(x) for x in col], index=col.index, dtype=object)
        return df


def _parsed(x):
    if not isinstance(x, str):
        return x
    m = core.CUR.unmark(x)
    if m is None:
        try:
            return SymReal(core.realval(float(x)), True)
        except ValueError:
            return x
    v, spec = m
    if not spec:
        return lift(v) if isinstance(v, SymReal) else v
    r = core.CUR.real('rounded{}'.format(len(core.CUR.notes.setdefault('rounded', []))), -1e30, 1e30)
    core.CUR.notes['rounded'].append(r)
    import re
    g = re.fullmatch(r'%(?:\.(\d+))?([efgEG])', spec)
    if g:
        n = int(g.group(1) or 6)
        if g.group(2) == 'f':
            core.CUR.assume(abs(r - v) <= 0.5 * 10. ** -n)
        else:
            core.CUR.assume(abs(r - v) <= 0.5 * 10. ** -(n if g.group(2) in 'eE' else n - 1) * abs(v))
    return lift(r)


def _deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, dict):
        return any(_deep_sym(k) or _deep_sym(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set)):
        return any(_deep_sym(v) for v in x)
    return False


def _plain(x):
    """what the yaml loader gives back unchanged"""
    if isinstance(x, dict):
        for k, v in x.items():
            _plain(k), _plain(v)
    elif isinstance(x, (list,)):
        for v in x:
            _plain(v)
    elif is_sym(x):
        if getattr(x, 'npy', False):
            raise core.Unsupported('numpy scalar in a yaml document')
    elif type(x) not in (str, int, float, bool, type(None)):
        raise core.Unsupported('{} in a yaml document'.format(type(x)))


YAMLX = YamlFront()


def patch_numpy(module):
    d = module.__dict__
    for k, v in list(d.items()):
        if isinstance(v, types.ModuleType) and v.__name__ == 'yaml':
            d[k] = YAMLX
            continue
        if isinstance(v, types.ModuleType) and v.__name__ == 'pandas':
            d[k] = PandasFront(v)
            continue
        if v is _interp1d:
            d[k] = Interp1d
        elif isinstance(v, types.ModuleType) and v.__name__ == 'scipy.interpolate':
            d[k] = types.SimpleNamespace(**{**vars(v), 'interp1d': Interp1d})
        elif v is np:
            d[k] = NPX
        elif v is math:
            d[k] = MATHX
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) and \
                getattr(np, getattr(v, '__name__', ''), None) is v:
            d[k] = getattr(NPX, v.__name__)


class Interp1d(object):
    """scipy.interpolate.interp1d, linear"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.args = (x, y)
        self.sym = _has_sym(x) or _has_sym(y)
        self.kw = dict(kind=kind, axis=axis, copy=copy, bounds_error=bounds_error, fill_value=fill_value, assume_sorted=assume_sorted)
        if not self.sym:
            self.real = _interp1d(_unobj(x), _unobj(y), **self.kw)
        elif kind != 'linear' or not (isinstance(fill_value, float) and math.isnan(fill_value)):
            raise core.Unsupported('interp1d')

    def __call__(self, t):
        if not self.sym and not _has_sym(t):
            return self.real(_unobj(t))
        x, y = [list(a) for a in self.args]

        def one(v):
            if v < x[0] or v > x[-1]:
                if self.kw['bounds_error'] is False:
                    return float('nan')
                raise ValueError('A value in x_new is outside the interpolation range.')
            return NPX.interp(v, x, y)
        return _emap(one, t)


# -------------------------------------------------------------- numpy shim ---
def _has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_has_sym(v, depth + 1) for v in x)
    if hasattr(x, 'dtype') and hasattr(x, 'values') and not isinstance(x, type):
        try:
            return _has_sym(np.asarray(x.values))
        except Exception:
            return False
    return False


def lift(v):
    """one array element: floats become proxies with numpy semantics"""
    if isinstance(v, SymReal):
        return v if v.npy else SymReal(v.e, True)
    if isinstance(v, (float, np.floating)) and np.isfinite(v):
        return SymReal(core.realval(v), True)
    if isinstance(v, (SymInt,)):
        return v
    return v


def lift_array(a):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(a.size):
        of[i] = lift(af[i])
    return out


def _emap(fn, x):
    if isinstance(x, (list, tuple)):
        x = np.array(x, dtype=object)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = fn(x[i])
        return out
    if hasattr(x, 'map') and hasattr(x, 'index') and not isinstance(x, type):
        return x.map(fn)
    return fn(x)


def _bmap(fn, x):
    r = _emap(fn, x)
    if isinstance(r, np.ndarray):
        return np.array([bool(v) for v in r.reshape(-1)], dtype=bool).reshape(r.shape)
    return r


def _emap2(fn, a, b):
    aa, bb = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if aa.shape == () and bb.shape == ():
        return fn(aa[()], bb[()])
    aa, bb = np.broadcast_arrays(aa, bb)
    out = np.empty(aa.shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = fn(aa[i], bb[i])
    return out


def _isnan1(v):
    return (not is_sym(v)) and isinstance(v, (float, np.floating)) and math.isnan(v)


def _isinf1(v):
    return (not is_sym(v)) and isinstance(v, (float, np.floating)) and math.isinf(v)


FLOATS = (None, float, 'float', 'float64', 'f8', 'd', np.float64, np.dtype('float64'))


def _is_float_dtype(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


class NumpyFront(types.ModuleType):
    """numpy, with symbolic elements allowed in arrays"""
    force_object = True

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, name):
        real = getattr(np, name)
        if callable(real) and not isinstance(real, type) and not isinstance(real, np.ufunc) and name not in _PLAIN:
            def call(*a, **k):
                return real(*a, **k)
            call.__name__ = name
            return call
        return real

    # -- creation
    def _filled(self, shape, value, dtype):
        if dtype is float or _is_float_dtype(dtype):
            if core.CUR is None:
                return np.full(shape, value, dtype=dtype or float)
            a = np.empty(shape, dtype=object)
            a.fill(SymReal(core.realval(value), True))
            return a
        return np.full(shape, value, dtype=dtype)

    def zeros(self, shape, dtype=None, **k):
        return self._filled(shape, 0., dtype)

    def ones(self, shape, dtype=None, **k):
        return self._filled(shape, 1., dtype)

    def empty(self, shape, dtype=None, **k):
        return self._filled(shape, 0., dtype)

    def full(self, shape, value, dtype=None, **k):
        if is_sym(value):
            a = np.empty(shape, dtype=object)
            a.fill(lift(value))
            return a
        if isinstance(value, (float, np.floating)) and np.isfinite(value) or (dtype is not None and _is_float_dtype(dtype)):
            return self._filled(shape, value, dtype)
        return np.full(shape, value, dtype=dtype)

    def _like(self, a, value, dtype):
        a = np.asarray(a)
        dt = dtype if dtype is not None else a.dtype
        if np.dtype(dt).kind in 'fO':
            return self._filled(a.shape, value, None)
        return np.full(a.shape, value, dtype=dt)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, 0., dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, 1., dtype)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, 0., dtype)

    def full_like(self, a, value, dtype=None, **k):
        return self.full(np.shape(a), value, dtype)

    def eye(self, *a, **k):
        r = np.eye(*a, **k)
        return lift_array(r) if r.dtype.kind == 'f' and core.CUR is not None else r

    def identity(self, n, dtype=None):
        return self.eye(n) if dtype is None else np.identity(n, dtype=dtype)

    def array(self, obj, dtype=None, copy=True, **k):
        if core.CUR is None:
            return np.array(obj, dtype=dtype, **k)
        if _has_sym(obj):
            if dtype is None or _is_float_dtype(dtype) or dtype is object or np.dtype(dtype) == object:
                r = np.array(obj, dtype=object, **k)
                return lift_array(r) if not (dtype is object) else r
            r = np.array(obj, dtype=object)
            out = np.empty(r.shape, dtype=dtype)
            for i in np.ndindex(r.shape):
                v = r[i]
                if np.dtype(dtype).kind == 'b':
                    out[i] = bool(v)
                elif np.dtype(dtype).kind in 'iu':
                    out[i] = int(v)
                else:
                    raise core.Unsupported('array dtype {}'.format(dtype))
            return out
        r = np.array(obj, dtype=dtype, **k)
        return lift_array(r) if r.dtype.kind == 'f' else r

    def asarray(self, obj, dtype=None, **k):
        if isinstance(obj, np.ndarray) and (dtype is None or obj.dtype == object and _is_float_dtype(dtype)):
            return obj if obj.dtype.kind != 'f' or core.CUR is None else lift_array(obj)
        return self.array(obj, dtype=dtype)

    def linspace(self, a, b, num=50, **k):
        if _has_sym(a) or _has_sym(b):
            if num == 1:
                return np.array([lift(a)], dtype=object)
            return np.array([lift(a + (b - a) * i / (num - 1)) for i in range(num)], dtype=object)
        return np.linspace(a, b, num, **k)

    # -- elementwise
    def exp(self, x, **k):
        return _emap(lambda v: core.sym_exp(v), x) if _has_sym(x) else np.exp(_unobj(x), **k)

    def log(self, x, **k):
        return _emap(lambda v: core.sym_log(v), x) if _has_sym(x) else np.log(_unobj(x), **k)

    def log10(self, x, **k):
        return _emap(lambda v: core.sym_fun('log10', v), x) if _has_sym(x) else np.log10(_unobj(x), **k)

    def sqrt(self, x, **k):
        return _emap(lambda v: core.sym_pow(lift(v), 0.5), x) if _has_sym(x) else np.sqrt(_unobj(x), **k)

    def power(self, a, b, **k):
        return _emap2(core.sym_pow, a, b) if _has_sym(a) or _has_sym(b) else np.power(_unobj(a), _unobj(b))

    def square(self, a):
        return a * a

    def abs(self, x, **k):
        return _emap(abs, x) if _has_sym(x) else np.abs(_unobj(x), **k)

    absolute = fabs = abs

    def round(self, x, decimals=0, **k):
        if _has_sym(x):
            return _emap(lambda v: core.rounded(v, decimals), x)
        return np.round(_unobj(x), decimals, **k)

    around = round_ = round

    def sign(self, x):
        return _emap(lambda v: ite(v > 0, 1., ite(v < 0, -1., 0.)), x) if _has_sym(x) else np.sign(_unobj(x))

    def maximum(self, a, b, **k):
        if _has_sym(a) or _has_sym(b):
            return _emap2(core.smax, a, b)
        return np.maximum(_unobj(a), _unobj(b), **k)

    def minimum(self, a, b, **k):
        if _has_sym(a) or _has_sym(b):
            return _emap2(core.smin, a, b)
        return np.minimum(_unobj(a), _unobj(b), **k)

    fmax, fmin = maximum, minimum

    def clip(self, x, lo, hi, **k):
        if _has_sym(x) or _has_sym(lo) or _has_sym(hi):
            if lo is not None:
                x = self.maximum(x, lo)
            if hi is not None:
                x = self.minimum(x, hi)
            return x
        return np.clip(x, lo, hi, **k)

    def isnan(self, x, **k):
        if _objlike(x):
            return _bmap(_isnan1, x)
        return np.isnan(x, **k)

    def isinf(self, x, **k):
        if _objlike(x):
            return _bmap(_isinf1, x)
        return np.isinf(x, **k)

    def isfinite(self, x, **k):
        if _objlike(x):
            return _bmap(lambda v: not (_isnan1(v) or _isinf1(v)), x)
        return np.isfinite(x, **k)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _has_sym(a) or _has_sym(b):
            return _emap2(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)
        return np.isclose(_unobj(a), _unobj(b), rtol=rtol, atol=atol, equal_nan=equal_nan)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        r = self.isclose(a, b, rtol, atol, equal_nan)
        return all(bool(v) for v in np.asarray(r, dtype=object).reshape(-1))

    def where(self, c, *ab):
        if not ab:
            return np.where(_boolify(c))
        a, b = ab
        if _has_sym(c) or _has_sym(a) or _has_sym(b):
            cc, aa, bb = np.broadcast_arrays(np.asarray(c, dtype=object), np.asarray(a, dtype=object),
                                             np.asarray(b, dtype=object))
            out = np.empty(cc.shape, dtype=object)
            for i in np.ndindex(cc.shape):
                v = cc[i]
                out[i] = ite(v if isinstance(v, SymBool) else bool(v), aa[i], bb[i])
            return out if out.shape else out[()]
        return np.where(c, a, b)

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        if not (_has_sym(x) or _has_sym(xp) or _has_sym(fp)):
            return np.interp(_unobj(x), _unobj(xp), _unobj(fp), left, right, period)
        xp, fp = list(xp), list(fp)

        def one(v):
            if v < xp[0]:
                return lift(fp[0] if left is None else left)
            if v >= xp[-1]:
                return lift(fp[-1] if right is None or v == xp[-1] else right)
            for j in range(len(xp) - 1):
                if v < xp[j + 1]:
                    w = (v - xp[j]) / (lift(xp[j + 1]) - xp[j])
                    return lift(fp[j] + (lift(fp[j + 1]) - fp[j]) * w)
            return lift(fp[-1])
        return _emap(one, x)

    # -- reductions
    def sum(self, x, axis=None, **k):
        if isinstance(x, (list, tuple)) and _has_sym(x):
            x = np.array(x, dtype=object)
        return np.sum(x, axis=axis, **k)

    def max(self, x, axis=None, **k):
        if _has_sym(x) and axis is None:
            return core.smax(*np.asarray(x, dtype=object).reshape(-1))
        return np.max(x, axis=axis, **k)

    amax = nanmax = max

    def min(self, x, axis=None, **k):
        if _has_sym(x) and axis is None:
            return core.smin(*np.asarray(x, dtype=object).reshape(-1))
        return np.min(x, axis=axis, **k)

    amin = nanmin = min

    def std(self, x, ddof=0, axis=None, **k):
        if _has_sym(x) and axis is None:
            x = list(np.asarray(x, dtype=object).reshape(-1))
            m = sum(x[1:], x[0]) / len(x)
            v = sum([(a - m) * (a - m) for a in x][1:], (x[0] - m) * (x[0] - m))
            return core.sym_pow(lift(v / (len(x) - ddof)), 0.5)
        return np.std(_unobj(x), ddof=ddof, axis=axis, **k)

    def any(self, x, axis=None, **k):
        return np.any(_boolify(x), axis=axis, **k)

    def all(self, x, axis=None, **k):
        return np.all(_boolify(x), axis=axis, **k)

    def nonzero(self, x):
        return np.nonzero(_boolify(x))

    def argwhere(self, x):
        return np.argwhere(_boolify(x))

    def flatnonzero(self, x):
        return np.flatnonzero(_boolify(x))

    def logical_and(self, a, b):
        return np.logical_and(_boolify(a), _boolify(b))

    def logical_or(self, a, b):
        return np.logical_or(_boolify(a), _boolify(b))

    def logical_not(self, a):
        return np.logical_not(_boolify(a))

    def count_nonzero(self, x, **k):
        return np.count_nonzero(_boolify(x), **k)

    def array_equal(self, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))

    def nan_to_num(self, x, **k):
        if _objlike(x):
            return _emap(lambda v: 0. if _isnan1(v) else v, x)
        return np.nan_to_num(x, **k)

    def diff(self, x, **k):
        x = np.asarray(x)
        return x[1:] - x[:-1] if x.ndim == 1 and not k else np.diff(x, **k)

    def errstate(self, *a, **k):
        return np.errstate(*a, **k)

    @property
    def random(self):
        return RANDOM


_PLAIN = {'errstate', 'seterr', 'vectorize', 'nditer', 'ndindex'}


def _objlike(x):
    return is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object) or (
        isinstance(x, (list, tuple)) and _has_sym(x)) or (hasattr(x, 'dtype') and getattr(x, 'dtype', None) == object)


def _unobj(x):
    """object array of plain numbers -> float array"""
    if isinstance(x, np.ndarray) and x.dtype == object and x.size:
        return x.astype(float)
    return x


def _boolify(x):
    if is_sym(x):
        return bool(x)
    if isinstance(x, (list, tuple)):
        x = np.array(x, dtype=object) if _has_sym(x) else np.asarray(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([bool(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return x


class RandomFront(object):
    """numpy.random: harnesses may replace single functions by non-deterministic stubs"""

    def __init__(self):
        self.stubs = {}

    def __getattr__(self, name):
        if name == 'stubs':
            raise AttributeError
        return self.stubs.get(name) or getattr(np.random, name)


class MathFront(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        real = getattr(math, name)

        def call(*a, **k):
            if any(is_sym(v) for v in a):
                f = getattr(self, 'sym_' + name, None)
                if f is None:
                    raise core.Unsupported('math.' + name)
                return f(*a, **k)
            return real(*a, **k)
        return call if callable(real) else real

    def sym_exp(self, x):
        return core.sym_exp(x)

    def sym_log(self, x, base=None):
        if base is not None:
            return core.sym_log(x) / math.log(base)
        return core.sym_log(x)

    def sym_sqrt(self, x):
        return core.sym_pow(x, 0.5)

    def sym_fabs(self, x):
        return abs(x)

    def sym_pow(self, a, b):
        return core.sym_pow(a, b)

    def sym_isclose(self, a, b, rel_tol=1e-9, abs_tol=0.):
        return abs(a - b) <= core.smax(rel_tol * core.smax(abs(a), abs(b)), abs_tol)

    def sym_isnan(self, x):
        return False

    def sym_isinf(self, x):
        return False

    def sym_isfinite(self, x):
        return True

    def sym_floor(self, x):
        return SymInt(z3.ToInt(core.term(x)))

    def sym_ceil(self, x):
        return SymInt(-z3.ToInt(-core.term(x)))


RANDOM = RandomFront()
NPX = NumpyFront()
MATHX = MathFront()
