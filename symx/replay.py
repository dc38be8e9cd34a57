"""Concrete runs of harnesses on the untouched code of /repo.

  python -m symx.replay FILE            replays one violation (exit 1 if it reproduces)
  python -m symx.replay --batch ID TIER reads a list of jobs on stdin
"""
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')


def run(fn, params, inputs):
    from symx import core
    ctx = core.ConcreteCtx(inputs)
    core.CUR = None
    try:
        fn(ctx, **params)
    except core.Infeasible:
        return {'status': 'infeasible'}
    except core.Failed:
        v = ctx.violations[0]
        return {'status': 'violated', 'label': v['label'], 'detail': v['detail']}
    except Exception as exc:
        return {'status': 'error', 'detail': ''.join(
            traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:]}
    return {'status': 'ok', 'reached': sorted(ctx.reached)}


def main():
    warnings.simplefilter('ignore')
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    out = sys.stdout
    sys.stdout = sys.stderr
    from symx.runner import load_check
    if sys.argv[1] == '--batch':
        prop, tier = sys.argv[2:4]
        mod = load_check(prop)
        tasks = mod.tasks(tier)
        for job in json.load(sys.stdin):
            if 'fn' in job:
                r = run(getattr(mod, job['fn']), job['params'], job['inputs'])
            else:
                t = tasks[job['task']]
                r = run(getattr(mod, t.fn), t.params, job['inputs'])
            out.write('@@' + json.dumps(r, default=str) + '\n')
            out.flush()
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    mod = load_check(d['property'])
    t = mod.tasks(d['tier'])[d['index']]
    r = run(getattr(mod, t.fn), t.params, d['inputs'])
    out.write(json.dumps(r, indent=1, default=str) + '\n')
    return 1 if r['status'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
