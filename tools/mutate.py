"""mutate.py FILE N SEED CHECKS... : N random small changes of FILE (relative to the repository) which pass the stable tests, each given to
the quick checks until one reports a violation. Survivors are printed with their change; a way to find what the checks do not see."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('print', 'verbose', 'latex', 'warn', 'fig', 'ax', 'plt', 'logger')


def candidates(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def rep(n, text):
        a, b = span(n)
        out.append((a, b, text))
    skip = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
            if fn.name in ('compare_reduction_runs', '__str__', '__repr__') or 'latex' in fn.name or 'plot' in fn.name or 'print' in fn.name:
                skip |= set(map(id, ast.walk(fn)))
        if isinstance(fn, ast.Raise) or (isinstance(fn, ast.Call) and seg(fn.func).split('.')[-1] in SKIP):
            skip |= set(map(id, ast.walk(fn)))
        if isinstance(fn, (ast.FunctionDef, ast.ClassDef, ast.Module)) and fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
            skip |= set(map(id, ast.walk(fn.body[0])))
        if isinstance(fn, (ast.FunctionDef,)):
            for d in fn.args.defaults:
                skip |= set(map(id, ast.walk(d)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left), seg(n.comparators[0])
            o = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
                 ast.IsNot: 'is'}[type(n.ops[0])]
            rep(n, '{} {} {}'.format(a, o, b))
        elif isinstance(n, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or o and not isinstance(n.left.value, str):
                rep(n, '{} {} {}'.format(seg(n.left), o, seg(n.right)))
                if not isinstance(n.op, ast.Pow):
                    rep(n, seg(n.left))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, o.join(seg(v) for v in n.values))
            rep(n, seg(n.values[0]))
            rep(n, seg(n.values[-1]))
        elif isinstance(n, ast.UnaryOp):
            rep(n, seg(n.operand))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v))
            elif isinstance(v, (int, float)):
                rep(n, repr(v + 1))
                if v == 0 or v == 1:
                    rep(n, '-1')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'dropna', 'fillna', 'strip', 'lower', 'sort_values', 'unique', 'astype'):
                rep(n, seg(f.value))
            elif seg(f).endswith('deepcopy') or seg(f) in ('list', 'set', 'dict', 'sorted', 'abs', 'str', 'float', 'int') and len(n.args) == 1:
                rep(n, seg(n.args[0]))
            elif len(n.keywords) > 0:
                k = random.Random(seg(n)).choice(n.keywords)
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    rest = [seg(a) for a in n.args] + ['{}={}'.format(q.arg, seg(q.value)) for q in n.keywords if q is not k]
                    rep(n, '{}({})'.format(seg(f), ', '.join(rest)))
            if seg(f) in ('min', 'max'):
                rep(n, ('max' if seg(f) == 'min' else 'min') + seg(n)[3:])
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(n, ast.AugAssign):
                o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
                if o:
                    rep(n, '{} {} {}'.format(seg(n.target), o, seg(n.value)))
            rep(n, 'pass')
        elif isinstance(n, ast.If):
            rep(n.test, 'not ({})'.format(seg(n.test)))
        elif isinstance(n, ast.Attribute):
            for a, b in (('mask_pos', 'mask_neg'), ('mask_neu', 'mask_ions'), ('loc', 'iloc'), ('any', 'all'), ('all', 'any'), ('union', 'intersection')):
                if n.attr == a:
                    rep(n, seg(n.value) + '.' + b)
    return raw, out


def main():
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    W = '/tmp/mut/' + f.replace('/', '-')
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    src = open(os.path.join(W, f)).read()
    raw, cand = candidates(src)
    rnd = random.Random(seed)
    rnd.shuffle(cand)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + W)
    open(W + '.sh', 'w').write(t)
    done = killed = 0
    print(f, len(cand), 'candidates', flush=True)
    for a, b, text in cand:
        if done >= n:
            break
        new = raw[:a] + text.encode() + raw[b:]
        line = raw[:a].count(b'\n') + 1
        what = '{}:{}  {}  -->  {}'.format(f, line, raw[a:b].decode()[:150], text[:150])
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            continue
        open(os.path.join(W, f), 'wb').write(new)
        subprocess.run(['bash', W + '.sh', W + '.json'], capture_output=True, timeout=600)
        try:
            got = set(json.load(open(W + '.json'))['passed'])
        except Exception:
            got = set()
        if not stable <= got:
            continue
        done += 1
        res = []
        for c in checks:
            t0 = time.time()
            r = subprocess.run(['./check.sh', c, 'quick'], cwd=ROOT, env=dict(os.environ, SYMX_REPO=W), capture_output=True, text=True)
            res.append('{} rc={} {:.0f}s'.format(c, r.returncode, time.time() - t0))
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                break
        ok = 'VIOLATION property=' in r.stdout
        killed += ok
        print('caught  ' if ok else 'SURVIVED', '; '.join(res), '::', what, flush=True)
        if not ok and any('rc=0' not in x for x in res):
            print('      ', r.stdout[-300:], r.stderr[-300:])
    print(f, 'caught', killed, 'of', done, flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
