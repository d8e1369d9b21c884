#!/usr/bin/env python3
"""rewrites the generated parts of DESIGN.md (between the markers) from properties.jsonl, the evidence files and tools/design_notes.py"""
import json, os, re, sys, ast
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from design_notes import HOW, SEEDED_BY
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(R + '/MANIFEST.json'))['checks']}
out = []
for p in props:
    i = p['id']
    c = man[i]
    ev = {}
    try:
        ev = json.load(open(R + '/evidence/%s.json' % i))['coverage']
    except Exception:
        pass
    fs = sorted({f.split('.', 1)[1] if f.startswith('cpnest.') else f for f in ev.get('functions_under_contract', [])})
    out.append('**%s %s** (%s%s)  ' % (i, p['title'], c['level'], ', %s obligations' % ev['obligations'] if ev.get('obligations') else ''))
    out.append(HOW[i].strip().replace('\n', ' ') + '  ')
    if fs:
        out.append('Under contract: ' + ', '.join('`%s`' % f for f in fs) + '.  ')
    b = ev.get('bounded') or []
    if b:
        out.append('Bounded part (not counted as proved): ' + '; '.join(b) + '.')
    out.append('')
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], SEEDED_BY.get(d, '?')))
t = open(R + '/DESIGN.md').read()
for tag, lines in (('TABLE', out), ('SEEDED', sd)):
    new = '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(lines), tag)
    t = t.replace('@@%s@@' % tag, new) if '@@%s@@' % tag in t else re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: new, t, flags=re.S)
open(R + '/DESIGN.md', 'w').write(t)
