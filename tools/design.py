#!/usr/bin/env python3
"""Assembles DESIGN.md from design/head.md, the properties, design/Cxx.md and
design/tail.md, so that the statements never diverge from properties.jsonl."""
import os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
def read(name):
    return open(os.path.join(root, 'design', name)).read().rstrip() + '\n'
out = [read('head.md'), '\n## The properties and how each is decided\n']
for p in PROPS:
    src = open(os.path.join(root, 'checks', p['id'] + '.py')).read()
    fams = re.findall(r'@family\(quick=(\d+), *thorough=(\d+)[^)]*\)\s*\ndef (\w+)', src)
    out.append('\n### %s %s\n\n' % (p['id'], p['title']))
    out.append(read(p['id'] + '.md'))
    out.append('\nCases (quick/thorough): ' + ', '.join(
        '%s %s/%s' % (n, q, t) for q, t, n in fams) + '.\n')
import json
rows = []
sd = os.path.join(root, 'seeded')
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (
        b, m['property'], m['what_it_breaks'], m.get('caught_by', m['property'])))
out.append('\n' + read('tail.md').replace('@BUGS@', '\n'.join(rows)))
open(os.path.join(root, 'DESIGN.md'), 'w').write(''.join(out))
