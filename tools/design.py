#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, design_text.py, the harness directives and seeded/."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from design_text import TEXT, SEEDED, TAIL
out = [open(V + '/tools/design_head.md').read()]
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('* **%s** `%s` %s\n' % (m.group(1), m.group(2)[:7], m.group(3)))
goals = {}
for f in sorted(glob.glob(V + '/harness/**/*.go', recursive=True)):
    opts = doc = None
    for l in open(f):
        if l.startswith('//verif:goal'): opts, doc = l.split()[1:], ''
        elif l.startswith('//verif:doc'): doc = l[len('//verif:doc'):].strip()
        elif l.startswith('func Verif') and opts:
            o = dict(x.split('=', 1) for x in opts)
            goals.setdefault(o['property'], []).append((re.match(r'func (\w+)', l).group(1), os.path.relpath(f, V + '/harness'), o, doc))
            opts = None
out.append('\n## 4. How to read section 5\n\nFor each property: the statement (from `properties.jsonl`), what the oracle is, then the goals. '
  'A goal is one harness function; its text says which inputs are symbolic and their bounds (quick, thorough in brackets); '
  '`delays` is the number of schedule deviations (quick/thorough).\n\n## 5. The properties\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('\n### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    out.append('*Why tests cannot settle it:* %s.\n' % p['why_tests_cant'].rstrip('.'))
    if i in TEXT: out.append('%s\n' % TEXT[i].strip())
    out.append('\n')
    for fn, f, o, doc in sorted(goals.get(i, [])):
        d = ''
        if 'delays' in o or 'thorough.delays' in o: d = ' [delays %s/%s]' % (o.get('delays', '0'), o.get('thorough.delays', o.get('delays', '0')))
        if o.get('race'): d += ' [all memory accesses checked for races]'
        out.append('* `%s` (%s): %s%s\n' % (fn, f, doc, d))
out.append('\n## 6. Planted bugs\n\nEach is in `seeded/<id>/`, written from the property and the code; all compile, pass the 63 tests, and their demonstration '
  'fails with them and passes without. "strengthened" means that the checks first missed it.\n\n| id | property | what it breaks | needs | result |\n|---|---|---|---|---|\n')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'], m['needs'], SEEDED.get(i, 'caught by ' + m['property'])))
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write(''.join(out))
