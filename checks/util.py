"""helpers shared by the harnesses"""
import importlib


def errors(module):
    """the exception classes which a package declares for rejected input"""
    m = importlib.import_module(module)
    return tuple(v for v in vars(m).values() if isinstance(v, type) and issubclass(v, Exception))


def once(ctx, name, lo=None, hi=None):
    """the same arbitrary real every time it is asked for"""
    memo = ctx.__dict__.setdefault('once_memo', {})
    if name not in memo:
        memo[name] = ctx.real(name, lo, hi)
    return memo[name]
