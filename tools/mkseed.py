"""mkseed.py SPEC.py [id ...] : makes /verif/seeded/<id> from a list of planted changes and confirms each in a scratch copy.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
HEAD = '''import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


def split(s):
    return [x.strip() for x in s.split(' + ')]


def species(**kinds):
    """name: attributes"""
    from plaschem.species import RP
    out = {}
    for k, (name, att) in enumerate(kinds.items()):
        name = att.pop('as_name', name)
        i = att.pop('id', k + 1)
        att.setdefault('name', name)
        if name != 'M':
            att.setdefault('mass', 10. + 3 * k)
        out[name] = RP(i, attributes=att)
    return out


def reaction(i, string, sp, units=None, **att):
    from plaschem.reactions import Reaction
    lhs, rhs = [[sp[x] for x in split(s)] for s in string.split(' -> ')]
    if 'special_number' not in att:
        att.setdefault('arrh_a', 1e-15)
    u = {'arrh_a': {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[len(lhs)]} if 'arrh_a' in att else {}
    u.update(units or {})
    return Reaction(i, lhs, rhs, attributes=att, units=u)


def close(a, b, tol=1e-9):
    assert abs(a - b) <= tol * (abs(a) + abs(b)), (a, b)


'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
HERE="$(cd "$(dirname "$0")" && pwd)"
SCRATCH="$(mktemp -d)"
export HOME="$SCRATCH" MPLCONFIGDIR="$SCRATCH" SCRATCH
printf 'workspace: %s/workspace\\n' "$SCRATCH" > "$SCRATCH/.pygmofwork"
mkdir -p "$SCRATCH/workspace"
/opt/venv/bin/python "$HERE/demo.py"
rc=$?
rm -rf "$SCRATCH"
exit $rc
'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        run('cp -a /repo ' + W)
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old), 'times:', old[:60])
                bad = True
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        diff = run('git -C {} diff'.format(W)).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = run(os.path.join(d, 'demo.sh'), cwd='/repo')
        b = run(os.path.join(d, 'demo.sh'), cwd=W)
        # the stable tests, in the scratch copy
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + W)
        open('/tmp/seedtest.sh', 'w').write(t)
        run('bash /tmp/seedtest.sh /tmp/seedtest.json')
        try:
            got = set(json.load(open('/tmp/seedtest.json'))['passed'])
        except Exception as exc:
            got = set()
        ok = a.returncode == 0 and b.returncode != 0 and stable <= got
        print(s['id'], 'OK' if ok else 'NOT OK: clean {} patched {} lost tests {}'.format(
            a.returncode, b.returncode, sorted(stable - got)[:3]))
        if a.returncode:
            print(a.stderr[-500:])
        if ok:
            print('   ', (b.stderr or b.stdout).strip().split('\n')[-1][:200])
        else:
            shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
