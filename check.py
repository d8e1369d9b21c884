#!/usr/bin/env python3-vt
"""check.py Cxx: decide one property of /repo's current tree."""
import sys
import os
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import importlib
import json
import multiprocessing as mp
import resource
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = 'python3'


def ext_sum():
    cmd = ("{ echo setup.py; find cpnest -name '*.pyx' -o -name '*.px[di]' -o -name '*.[ch]' ! -name parameter.c; } | "
           "LC_ALL=C sort | xargs sha256sum | sha256sum")
    return subprocess.run(['bash', '-c', cmd], cwd=REPO, capture_output=True, text=True).stdout.strip()


def scratch_package():
    """copy of the package with an extension built from the current parameter.pyx"""
    d = tempfile.mkdtemp(prefix='vp-')
    shutil.copytree(os.path.join(REPO, 'cpnest'), os.path.join(d, 'cpnest'), ignore=shutil.ignore_patterns('__pycache__'))
    so = [f for f in os.listdir(os.path.join(d, 'cpnest')) if f.endswith('.so')]
    stamp = os.path.join(REPO, 'build', '.vp-ext.sha256')
    ok = so and os.path.exists(stamp) and open(stamp).read().strip() == ext_sum()
    if not ok:
        for f in so + ['parameter.c']:
            p = os.path.join(d, 'cpnest', f)
            if os.path.exists(p):
                os.unlink(p)
        for f in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and os.path.getsize(p) < 1 << 20:
                shutil.copy(p, d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', SETUPTOOLS_SCM_PRETEND_VERSION='0.11.0', PIP_NO_INDEX='1')
        env.pop('PYTHONHASHSEED', None)
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode or not any(f.endswith('.so') for f in os.listdir(os.path.join(d, 'cpnest'))):
            print('the extension does not build:\n' + r.stdout[-1500:] + r.stderr[-1500:])
            shutil.rmtree(d)
            sys.exit(2)
        shutil.rmtree(os.path.join(d, 'build'), ignore_errors=True)
    return d


def run_target(mod, i, tier, conn):
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    from pyvc import spec
    m = importlib.import_module(mod)
    t = m.targets(tier)[i]
    r = spec.verify(t, tier)
    conn.send(dict(name=t.name, covers=list(t.covers), status=r.status, why=r.why, stats=r.stats, notes=sorted(r.notes), secs=round(r.secs, 2),
                   inv={'%s:%s' % k: v for k, v in r.inv.items()},
                   obs=[(o.label, o.status, round(o.t, 3), o.backend, o.info if o.status != 'proved' else '') for o in r.obligations]))
    conn.close()


def run_targets(mod, n, names, budgets, tier, limit):
    """each target in its own process; a process that dies or runs out of time leaves the target undecided"""
    todo = list(range(n))
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < 7:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=run_target, args=(mod, i, tier, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i, (p, a, t0) in list(live.items()):
            got = None
            if a.poll(0.01):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(name=names[i], covers=[names[i]], status='undecided', why='verifier process died', stats={}, notes=[], secs=0, inv={}, obs=[])
            elif time.time() - t0 > limit:
                p.kill()
                got = dict(name=names[i], covers=[names[i]], status='undecided', why='time limit', stats={}, notes=[], secs=limit, inv={}, obs=[])
            if got is not None:
                p.join()
                out[i] = got
                del live[i]
        time.sleep(0.02)
    return [out[i] for i in range(n)]


BASE_TRUST = [
    'pyvc: the obligation generator in /verif/pyvc (Python semantics of the constructs cpnest uses); constructs outside its subset make a target undecided, never proved',
    'z3 5.3 and cvc5 (SMT back ends), CPython ast and Cython parsers',
    'floats are mathematical reals extended with +inf, -inf and nan: rounding, overflow and underflow are not modelled',
    'partial correctness: termination is not proved',
    'assumed contracts of numpy, math, random, bisect and the other libraries: /verif/pyvc/npmodel.py and lib.py',
]


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = 'contracts.' + pid.lower()
    m = importlib.import_module(mod)
    scratch = scratch_package()
    rc = 2
    try:
        rc = decide(pid, tier, seed, t0, mod, m, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, t0, mod, m, scratch):
    har = os.path.join(HERE, 'replay', 'h%s.py' % pid[1:])
    hout = os.path.join(scratch, 'h.json')
    hp = None
    if os.path.exists(har):
        env = dict(os.environ, PYTHONPATH=scratch + os.pathsep + os.path.join(HERE, 'replay'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VP_SCRATCH=scratch, HOME=scratch)
        hp = subprocess.Popen([PY, har, hout, '--seed', str(seed), '--tier', tier], cwd=scratch, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, start_new_session=True)
    gen_err = ''
    try:
        ts = m.targets(tier)
    except Exception as e:
        ts, gen_err = [], 'targets: %s' % e
    limit = 600 if tier == 'quick' else 2400
    res = run_targets(mod, len(ts), [t.name for t in ts], [t.budget for t in ts], tier, limit) if ts else []
    hres = None
    htxt = ''
    if hp is not None:
        try:
            htxt = hp.communicate(timeout=max(30, (780 if tier == 'quick' else 3000) - (time.time() - t0)))[0]
        except subprocess.TimeoutExpired:
            htxt = 'harness timed out'
        try:
            os.killpg(hp.pid, 9)
        except OSError:
            pass
        if os.path.exists(hout):
            hres = json.load(open(hout))
    failed = [r for r in res if r['status'] == 'failed']
    und = [r for r in res if r['status'] == 'undecided']
    proved = [r for r in res if r['status'] == 'proved']
    obs = [o for r in res for o in r['obs']]
    back = {}
    for o in obs:
        if o[1] == 'proved':
            back[o[3]] = back.get(o[3], 0) + 1
    cov = dict(
        obligations=len(obs), discharged=sum(o[1] == 'proved' for o in obs),
        checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
        trusted_base=BASE_TRUST + list(getattr(m, 'ASSUMES', [])) + sorted({n for r in res for n in r['notes']}),
        functions_under_contract=sorted({c for r in proved for c in r['covers']}),
        targets=[dict(target=r['name'], status=r['status'], obligations=len(r['obs']), solver_s=round(r['stats'].get('solver_s', 0), 2),
                      paths=r['stats'].get('paths', 0), loop_invariants={k: len(v) for k, v in r['inv'].items()}, why=r['why'][:300]) for r in res],
        undecided=[r['name'] + ': ' + r['why'][:200] for r in und],
        back_ends=back, solver_s=round(sum(r['stats'].get('solver_s', 0) for r in res), 2),
        bounded=list(getattr(m, 'BOUNDED', [])))
    if hres is not None:
        cov.update(evaluations=hres['evaluations'], distinct_nontrivial=hres['distinct'], samples=hres['samples'],
                   concrete_checks=hres['per'],
                   rule='concrete evaluations of the contracts on the real code (bounded: the cases enumerated by replay/h%s.py plus seeded random ones); distinct by their JSON form' % pid[1:])
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'proof'), coverage=cov, wall_s=round(time.time() - t0, 2))
    if gen_err:
        cov['note'] = gen_err
    if ev['level'] == 'other':
        cov['explanation'] = ('The contracts of %s are evaluated on the real code by replay/h%s.py on the counted cases; %d of %d obligations generated from the current '
                              'source were discharged deductively, the rest of the property is bounded (see bounded, undecided).' % (pid, pid[1:], cov['discharged'], cov['obligations']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %d targets undecided, %d failed; %s concrete evaluations; %.1f s' % (
        pid, cov['discharged'], cov['obligations'], len(cov['functions_under_contract']), len(und), len(failed),
        hres['evaluations'] if hres else 0, time.time() - t0))
    for r in und:
        print('  undecided (bounded check only): %s: %s' % (r['name'], r['why'][:300]))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.json')
    if os.path.exists(rp):
        os.unlink(rp)
    fobs = [dict(function=r['name'], obligation=o[0], status=o[1], verifier_output=o[4][:6000]) for r in failed for o in r['obs'] if o[1] != 'proved']
    if hres is None and hp is not None:
        print('concrete harness gave no answer:\n' + (htxt or '')[-3000:])
        if not failed:
            # the code under test took the harness down with it
            return 2
    conc = hres['fails'] if hres else []
    if conc:
        rec = dict(property=pid, concrete=conc[0], others=conc[1:4], failed_obligations=fobs[:20],
                   rerun='cd <scratch copy of the package>; PYTHONPATH=.:/verif/replay %s /verif/replay/h%s.py /dev/null --case %s' % (PY, pid[1:], rp))
        with open(rp, 'w') as f:
            json.dump(rec, f, indent=1)
        for c in conc:
            print('  %s fails: %s\n    case %s' % (c['check'], c['message'][:1500], json.dumps(c['case'])[:600]))
        for o in fobs[:5]:
            print('  failed obligation: %s: %s' % (o['function'], o['obligation']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if fobs:
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, failed_obligations=fobs[:50]), f, indent=1)
        for o in fobs[:8]:
            print('  failed obligation: %s: %s (%s)' % (o['function'], o['obligation'], o['status']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    main()
