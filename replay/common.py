"""Concrete cross-checks: the contracts evaluated by running the real code (CPython, the package built from /repo).

A harness defines CHECKS = {name: (cases(rng, tier), run(case))}; a case is JSON; run raises Failure (or anything else)
when the contract does not hold.  Usage: hNN.py OUT.json [--seed N] [--tier quick|thorough] [--case FILE]
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')


class Failure(Exception):
    pass


class Hang(BaseException):
    pass


def need(c, msg):
    if not c:
        raise Failure(msg)


def _alarm(sig, frm):
    raise Hang('no answer in the time limit')


def run_case(fn, case, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(case)
        return None
    except Hang:
        return 'does not terminate (limit %d s)' % limit
    except Failure as e:
        return str(e)
    except SystemExit as e:
        return 'unexpected exit (%s)' % (e.code,)
    except KeyboardInterrupt:
        return 'unexpected KeyboardInterrupt'
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_exc().splitlines(True)[-8:]))
    finally:
        signal.alarm(0)


def main(checks, limit=60):
    out = sys.argv[1]
    a = sys.argv[2:]
    seed = int(a[a.index('--seed') + 1]) if '--seed' in a else 1
    tier = a[a.index('--tier') + 1] if '--tier' in a else 'quick'
    import logging
    logging.disable(logging.CRITICAL)
    if '--case' in a:
        rec = json.load(open(a[a.index('--case') + 1]))
        rec = rec.get('concrete', rec)
        msg = run_case(checks[rec['check']][1], rec['case'], limit)
        print('FAILS: ' + msg if msg else 'holds')
        sys.exit(1 if msg else 0)
    res = dict(evaluations=0, distinct=0, fails=[], per={}, samples=[], seed=seed)
    t0 = time.time()
    budget = float(a[a.index('--budget') + 1]) if '--budget' in a else (90 if tier == 'quick' else 500)
    for name, (gen, fn) in checks.items():
        rng = random.Random('%s/%s' % (seed, name))
        seen = set()
        n = 0
        last = None
        tc = time.time()
        for case in gen(rng, tier):
            s = json.dumps(case, sort_keys=True)
            n += 1
            seen.add(s)
            last = case
            msg = run_case(fn, case, limit)
            if msg:
                res['fails'].append(dict(check=name, case=case, message=msg))
                break
            if time.time() - tc > budget / len(checks) and n >= 3:
                break
        res['evaluations'] += n
        res['distinct'] += len(seen)
        res['per'][name] = n
        if last is not None and len(res['samples']) < 4:
            s = json.dumps(last)
            res['samples'].append(dict(check=name, case=last if len(s) < 600 else s[:600] + '...'))
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.exit(1 if res['fails'] else 0)
