#!/usr/bin/env python3-vt
"""vt.py Cxx [filter]: development driver"""
import sys, importlib, os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, '/verif')
from pyvc import spec
m = importlib.import_module('contracts.' + sys.argv[1].lower())
for t in m.targets('quick'):
    if len(sys.argv) > 2 and sys.argv[2][0] != '-' and sys.argv[2] not in t.name: continue
    r = spec.verify(t, trace='vacuity' if '-c' in sys.argv else '-t' in sys.argv)
    print('%-70s %-9s %3d obl %5.1fs paths %d %s' % (t.name, r.status, len(r.obligations), r.secs, r.stats['paths'], r.why[:300]))
    for o in r.obligations:
        if o.status != 'proved' or '-v' in sys.argv: print('    ', o.status, o.label, '%.2f' % o.t, o.backend, o.info[:int(sys.argv[-1]) if sys.argv[-1].isdigit() else 300].replace('\n', ' '))
    if getattr(r, 'vacuous', None): print('     VACUOUS:', r.vacuous)
    if r.notes: print('     notes:', sorted(r.notes))
