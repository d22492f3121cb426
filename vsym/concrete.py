"""Replays harness inputs on the unpatched code. stdin: JSON {property, jobs:[{ob, values, seed}]}; stdout JSON."""
import importlib
import json
import os
import re
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def missing(e, where):
    """the harness asks for an internal name that is not there (renamed or moved); which says nothing about behaviour"""
    if not where.startswith(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props')):
        return False
    if isinstance(e, ImportError):
        return True
    m = str(e)
    return isinstance(e, AttributeError) and (m.startswith('module ') or m.startswith('type object ') or re.search(r"has no attribute '_", m) is not None)


def run_job(reg, job):
    from vsym.ctx import ConCtx, CheckFailed, AssumeFailed
    ob = reg.obs[job['ob']]
    tries = job.get('tries', 1)
    out = []
    for t in range(tries):
        ctx = ConCtx(job['values'], seed=job.get('seed', 0) * 1000 + t)
        r = {'ob': job['ob'], 'status': None, 'values': None}
        try:
            ob['f'](ctx, *ob['args'], **ob['kw'])
            r['status'] = 'pass'
        except AssumeFailed:
            r['status'] = 'assume'
        except CheckFailed as e:
            r['status'] = 'fail'
            r['label'], r['detail'] = e.label, e.detail
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if '/repo/' in f.filename or f.filename.startswith(os.environ.get('VSYM_REPO', '/repo'))]
            r['status'] = 'raise'
            r['label'] = type(e).__name__
            r['inrepo'] = bool(inrepo)
            last = (inrepo or list(tb))[-1]
            r['detail'] = '%s at %s:%s' % (str(e)[:200], last.filename, last.lineno)
            r['trace'] = traceback.format_exc()[-1500:]
            if missing(e, list(tb)[-1].filename):
                r['status'] = 'missing'
        r['values'] = ctx.used
        r['checks'] = ctx.n_checks
        out.append(r)
        if r['status'] in ('fail', 'raise', 'missing'):
            break
    return out


def main():
    req = json.load(sys.stdin)
    devnull = os.open(os.devnull, os.O_WRONLY)
    real = os.dup(1)
    os.dup2(devnull, 1)
    reg = importlib.import_module('props.' + req['property']).REG
    res = []
    from concurrent.futures import ProcessPoolExecutor
    for job in req['jobs']:
        res.append(run_job(reg, job))
    with os.fdopen(real, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
