"""plant.plant(id, prop, [(file, old, new), ...], demo, needs, breaks): make and validate /verif/seeded/<id>"""
import json
import os
import shutil
import subprocess
import tempfile

S = '/verif/seeded'


def sh(c, cwd=None, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def plant(id, prop, edits, demo, needs, breaks, tests=True):
    d = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(d, 'repo')
    try:
        sh('cp -a /repo %s' % r)
        sh('git checkout -q -- .', r)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT DOES NOT APPLY (%d)' % s.count(old), f, old[:60])
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout
        o = os.path.join(d, id)
        os.makedirs(o)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(o, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: the repository; exit 0 when the property holds\n'
                                                   'here="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
                                                   'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 "$PY" "$here/demo.py"\n')
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        pyx = any(f.endswith(('.pyx', '.pxd')) for f, _, _ in edits)
        if pyx:
            b = sh('rm -f cpnest/*.so cpnest/parameter.c; /opt/venv/bin/python setup.py build_ext --inplace --force', r)
            if b.returncode:
                print(id, 'DOES NOT BUILD', b.stdout[-800:], b.stderr[-800:])
                return False
        t0 = sh('bash %s/demo.sh' % o, '/repo')
        if t0.returncode:
            print(id, 'DEMO FAILS ON THE CLEAN TREE', t0.stdout[-800:], t0.stderr[-1500:])
            return False
        t1 = sh('bash %s/demo.sh' % o, r)
        if t1.returncode == 0:
            print(id, 'DEMO PASSES ON THE PATCHED TREE', t1.stdout[-500:])
            return False
        if tests:
            for t in ('test_gaussian', 'test_verbosity'):
                x = sh('PYTHONPATH=%s timeout 250 /opt/venv/bin/python -m unittest tests.%s' % (r, t), r)
                if x.returncode:
                    print(id, 'STABLE TEST FAILS', t, x.stderr[-600:])
                    return False
        shutil.rmtree(os.path.join(S, id), ignore_errors=True)
        shutil.copytree(o, os.path.join(S, id))
        print(id, 'ok:', (t1.stdout + t1.stderr).strip().splitlines()[-1:][0:1])
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)
